TECH = "TLA+ specification checked with TLC; traces of the real code validated against it by TLC"
prop("C01", "Prefetching loses, duplicates and reorders nothing under any schedule",
 "Every detection and every process request handed to the prefetching stage reaches the next stage exactly once, in the order it was handed over, and a detection is only passed on after every requested property has been computed for it. The number of detections inside the stage never exceeds the configured queue size, and waiting for the stage to drain returns only when everything has been delivered. This holds for every interleaving of the threads, including when the memory of a delivered detection is immediately reused for a new one.",
 ["schedules", "histories"], "every interleaving of producer, pool workers and output thread, every mix of detections and process requests, every queue size and thread count",
 "The existing tests run a handful of sources through one uncontrolled schedule; losing or reordering needs a particular interleaving (for instance address reuse between delivery and bookkeeping).",
 ["SEImplementation/src/lib/Prefetcher/Prefetcher.cpp", "SEImplementation/SEImplementation/Prefetcher/Prefetcher.h"],
 [("received queue in order of arrival, finished sources by address, output thread waiting for the head", "Prefetcher::outputLoop"), ("semaphore bounding the queue", "Prefetcher::receiveSource")],
 observe=["the calls into the stage and the calls it makes on the next stage"],
 claimed=True, tech=TECH, note="Exhaustive TLC check of the design (address reuse, bounded queue, 2 workers, up to 4 detections) with refinement of the interface specification and liveness; hundreds of controlled-schedule executions of the real stage validated event by event. Trusts the stand-ins for Alexandria's ThreadPool and Semaphore and sequentially consistent interleaving at synchronization points.")
prop("C02", "Measurement numbers, measures and delivers every group exactly once",
 "Sources are numbered 1, 2, 3, ... in the order their groups arrive at the measurement stage whatever the threads do, every member of every group is measured exactly once before the group is passed on, and every group is passed on exactly once with its observers told. Stopping or synchronizing the stage returns only after every group that arrived has been passed on, and reports a failed measurement instead of returning normally with groups missing.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of the feeding thread, pool workers and output thread, every number and size of groups, with and without a failing measurement",
 "No test runs this stage with several threads; losing the last groups needs the output thread to read the pool's counters at one particular moment.",
 ["SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp", "SEImplementation/SEImplementation/Measurement/MultithreadedMeasurement.h", "SEImplementation/SEImplementation/Plugin/SourceIDs/SourceIDTask.h"],
 [("source numbers forced before the group is queued", "MultithreadedMeasurement::receiveSource"), ("termination test of the output thread", "MultithreadedMeasurement::outputThreadLoop")],
 observe=["calls into the stage, the row converter, observers, the next stage"],
 claimed=True, tech=TECH, note="Exhaustive TLC check of the design incl. its termination test (with a negative control for the order in which counters are read), and controlled-schedule executions of the real stage validated by TLC. Trusts the stand-in ThreadPool.")
prop("C03", "Sorted output restores the detection order for every completion order",
 "Whatever order the measured groups arrive in, the sorting stage emits whole groups in ascending order of source number without gaps, holds back only the groups that have a missing predecessor, and has emitted everything once all groups have arrived.",
 ["schedules", "inputs"], "every permutation of arrival of every division of the source numbers into groups",
 "Tests try a few fixed orders.",
 ["SEMain/src/lib/Sorter.cpp", "SEMain/SEMain/Sorter.h"],
 [("buffer keyed by the lowest number, next expected number", "Sorter::receiveSource")],
 claimed=True, tech=TECH, note="All arrival orders of up to 5 (thorough: 6) groups enumerated and validated by TLC, plus long random ones; the design is model checked exhaustively.")
prop("C04", "Grouping: related sources leave together, exactly once, when requested",
 "At any time the stored sources are divided into groups such that a new source is merged with every group it is related to by the selected algorithm (none; overlapping bounding boxes; same parent detection; Moffat profile above the threshold within the maximum distance; same non-zero catalogue group), so that groups are the transitive closure of the relation. A process request releases exactly the groups that have at least one selected member, whole, and every source leaves exactly once. With a hard limit no group ever exceeds it, and related groups are only left apart when merging them would exceed it.",
 ["inputs", "histories", "configurations"], "every sequence of sources and process requests, every algorithm and limit",
 "Tests use two or three sources with a toy criterion; merging several groups through one source, limits and partial requests are combinations they do not sample.",
 ["SEFramework/src/lib/Pipeline/SourceGrouping.cpp", "SEImplementation/src/lib/Grouping/MoffatGrouping.cpp", "SEImplementation/src/lib/Grouping/SplitSourcesGrouping.cpp", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp", "SEImplementation/src/lib/Grouping/GroupingFactory.cpp", "SEImplementation/src/lib/Grouping/MoffatCriteria.cpp", "SEImplementation/src/lib/Grouping/OverlappingBoundariesCriteria.cpp"],
 [("merge of the matching groups", "SourceGrouping::receiveSource, MoffatGrouping::receiveSource"), ("release on request", "receiveProcessSignal")],
 claimed=True, tech=TECH, note="The design is checked for every relation over 4 sources and every limit; random histories of the real factory-made stages with the real criteria are validated by TLC, the relation being recomputed in the specification from the attributes of the sources.")
prop("C06", "Segmentation publishes exactly the connected components of the detection",
 "For every frame, every pixel above its detection threshold (the threshold times the square root of the variance there) belongs to exactly one published detection and no other pixel to any; two pixels are in the same detection exactly when they are connected through 8-neighbours above the threshold. Flood fill leaves out, whole, the components whose extent exceeds the configured maximum. The result does not depend on how the image is cut into tiles, every detection carries its frame and an identity of its own, the process requests of one-pass labelling stay exactly the configured number of lines behind the line being read, and the final request comes after all detections.",
 ["inputs", "configurations"], "every image, size and tile size, both labelling algorithms",
 "Tests use a few fixed small images; tile borders, merging branches and image borders are combinations they do not sample.",
 ["SEImplementation/src/lib/Segmentation/Lutz.cpp", "SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp", "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp", "SEFramework/src/lib/Pipeline/Segmentation.cpp"],
 [("Lutz' one pass labelling", "Lutz::labelImage"), ("flood fill with a tile visited map", "BFSSegmentation::labelImage")],
 claimed=True, tech=TECH, note="Lutz' state machine is model checked over all small binary images against the definition of connected components; the real segmentation (both algorithms, made by its factory) is run on all images of several small sizes and on thousands of random ones with varying tile sizes, variances and limits, and every run is validated by TLC against the definition.")
prop("C07", "Partition steps split a detection into disjoint parts of its own pixels",
 "A partition step forwards a detection unchanged, removes it, or replaces it by at least two parts: non-empty, pairwise disjoint, together exactly the pixels of the original, each with an identity of its own, the detection identity of the original and its frame. Splitting by thresholds makes one part per branch of the threshold tree (branches have at least the minimum area and more than the contrast fraction of the total intensity) that contains the branch; splitting by attractors never separates pixels that ascend to the same local maximum inside the bounding box and only joins those whose maxima touch. A detection is removed exactly when it has fewer pixels than the minimum area, fewer pixels at the core signal-to-noise level than the core area, or the wrong association. Every detection goes through all steps in order, and a process request overtakes none.",
 ["inputs", "configurations"], "every detection shape and pixel values, every threshold count, contrast, minimum area and chain of steps",
 "Tests use a few hand-made sources of four pixels.",
 ["SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp", "SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp", "SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp", "SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModePartitionStep.cpp", "SEFramework/src/lib/Pipeline/Partition.cpp"],
 [("tree of thresholded components and reassignment", "MultiThresholdPartitionStep::partition"), ("steps applied in sequence", "Partition::receiveSource")],
 claimed=True, tech=TECH, note="The list-and-stack algorithm of the threshold step is model checked against the recursive definition of its branches over all small images; thousands of random chains of the real steps (with the real property tasks) are validated step by step by TLC, the expected branches and ascents being computed in the specification. One known finding (attractor parts carry no identity).")
prop("C08", "Deblending and cleaning conserve sources, pixels and identities",
 "Deblending steps are applied in their order to every group, and the group is passed on exactly when sources are left. Cleaning leaves a source that is alone in its group untouched; from a larger group it removes exactly the sources with fewer pixels than the minimum area on which the filtered value exceeds the summed profiles of all other sources of the group. A removed source's pixels go to the surviving source whose profile contributes most on them, which is replaced by a source with an identity of its own, all these pixels, and its detection identity and frame; other survivors stay as they are. No pixel is lost or duplicated while a source survives, the group disappears when none does, and nothing in the result depends on where the sources are stored in memory.",
 ["inputs", "configurations"], "every group of sources, every chain of steps, minimum areas, pixel values and profiles",
 "There is no test of the cleaning at all.",
 ["SEImplementation/src/lib/Deblending/Cleaning.cpp", "SEFramework/src/lib/Pipeline/Deblending.cpp"],
 [("influence of the neighbours and merging", "Cleaning::deblend"), ("steps in order, empty groups dropped", "Deblending::receiveSource")],
 claimed=True, tech=TECH, note="The effect of chains of cleanings on a group is model checked for every choice of removed sources and survivors over groups of 4; thousands of random groups are run through chains of the real steps twice, with different memory layouts, every step being validated by TLC (removed sources and receivers recomputed from the recorded profile values, with a tolerance of 1/1000 per source for their rounding).")
prop("C09", "Properties are computed once, on demand, by the right task",
 "Asking a source, a member of a group or a group for a property returns the value set last or, if there is none, computes it exactly once with the task registered for it, whether that task works on the single source or on the whole group and whether it sets the property on the group, on every member or on both; asking again returns the same object until it is replaced or the group changes. Properties read by a task are computed the same way. A property nobody can compute, or whose ingredients nobody can compute, raises PropertyNotFoundException in every case, and different instances (indices) and types of property never mix.",
 ["histories", "configurations"], "every sequence of property requests, sets and group changes over every dependency graph of tasks",
 "Tests request one or two properties in one order.",
 ["SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp", "SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp", "SEFramework/src/lib/Source/EntangledSource.cpp", "SEFramework/src/lib/Task/TaskProvider.cpp", "SEFramework/src/lib/Property/PropertyHolder.cpp"],
 [("lookup order own, group, source, task", "EntangledSource::getProperty"), ("cache of tasks", "TaskProvider::getTask")],
 claimed=True, tech=TECH, note="The evaluation semantics is a TLA+ definition, model checked over all short histories for: asked once = asked twice, last set wins, missing stays missing; thousands of random histories over random dependency graphs on the real classes are validated against it, every computed value carrying a serial number so that each additional, missing or misplaced computation shows.")
prop("C10", "Group results are recomputed whenever the membership of a group changes",
 "A property that a task computed for a group or put on the members of a group is never served from before the last change of the group's membership: after adding, removing or merging sources (in the group merged into and in the one that is emptied) it is computed again for the new membership, while properties that belong to the single sources (computed by a source's own task or set before the source joined a group) survive every change.",
 ["histories"], "every sequence of adding, removing, merging and requesting",
 "Tests exercise single changes with one property.",
 ["SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp", "SEFramework/src/lib/Source/EntangledSource.cpp"],
 [("invalidation", "SourceGroupWithOnDemandProperties::clearGroupProperties")],
 claimed=True, tech=TECH, note="Freshness is an invariant of the TLA+ semantics, model checked over all short histories of 2 groups and 2 sources; thousands of random histories with 3 groups and 6 sources on the real classes are validated against it.")
prop("C11", "The tile cache never changes what an image contains",
 "Reading a pixel or a rectangle of a file-backed image (an image behind the tile manager, whether of memory or of a FITS file) returns the last value written to each pixel, or the file's value if there was none, whatever tiles were evicted, saved and reloaded in between and whatever other images and threads do; a read that overlaps a write of the same pixel returns the value before or after it. The tiles the cache keeps never exceed the configured memory by more than the tiles being loaded or in use at that moment, and after a flush, and after the end of the manager, every written value is in the file.",
 ["schedules", "histories", "configurations"], "every sequence and interleaving of reads, writes, flushes and evictions over several images, pixel types, every tile size and memory limit",
 "Tests read and write once with the default cache, single-threaded.",
 ["SEFramework/src/lib/Image/TileManager.cpp", "SEFramework/SEFramework/Image/TileManager.h", "SEFramework/src/lib/Image/BufferedImage.cpp", "SEFramework/SEFramework/Image/WriteableBufferedImage.h", "SEFramework/src/lib/Image/ImageTile.cpp", "SEFramework/src/lib/FITS/FitsImageSource.cpp"],
 [("map of tiles with a list in the order of loading", "TileManager::getTileForPixel"), ("modified tiles saved on removal, tiles in use kept", "TileManager::removeExtraTiles"), ("writes look the tile up", "WriteableBufferedImage::setValue")],
 claimed=True, tech=TECH, note="Cache protocol model checked exhaustively (one writer, one reader, somebody making room), the two original policies as negative controls; random histories and controlled interleavings of the real tile manager over several images (in memory and FITS) validated by TLC as histories of registers.")
prop("C12", "Composed images are views: every access path gives the same pixels",
 "An image built from others (sub-image, padding by a constant or by replicating, reflecting or wrapping the border, mirroring, recentring around the edges, function application, masking, subtraction, multiplication, thresholding, signal to noise, interpolation of bad pixels, constant, vector) has the size and, at every position, the pixel its definition gives for the current pixels of the images underneath; reading a rectangle at once, or a rectangle of a rectangle, gives the same pixels as reading them one by one, whatever the tiles. An interpolated image has, in place of a bad pixel (variance not below the limit), the nearest good one to its left or above within the gap. Copying an image into memory and modifying the copy never modifies the original, and reading never modifies anything.",
 ["inputs", "histories"], "every composition of image operations, every rectangle, every change of the images underneath",
 "Tests sample one image per class with one rectangle.",
 ["SEFramework/SEFramework/Image/SubImage.h", "SEFramework/SEFramework/Image/ProcessedImage.h", "SEFramework/SEFramework/Image/FunctionalImage.h", "SEFramework/SEFramework/Image/PaddedImage.h", "SEFramework/SEFramework/Image/MirrorImage.h", "SEFramework/SEFramework/Image/RecenterImage.h", "SEFramework/SEFramework/Image/MaskedImage.h", "SEFramework/SEFramework/Image/ThresholdedImage.h", "SEFramework/SEFramework/Image/InterpolatedImageSource.h", "SEFramework/SEFramework/Image/VectorImage.h", "SEFramework/SEFramework/Image/ImageChunk.h"],
 [("chunks", "getChunk of every image class"), ("coordinates outside of the image", "ReflectCoordinates and the like")],
 claimed=True, tech=TECH, note="The definitions are an executable specification (Images.tla) whose laws are model checked over all small images; thousands of random compositions of the real classes, with changes of the bases in between, are read and every result compared by TLC.")
prop("C13", "Windowed access to an image returns the image's own pixels",
 "Reading pixels or rectangles of an image through an accessor gives exactly the pixels of the image, whatever the window, the hint about the access direction and the order of the accesses, up to and including the borders of the image.",
 ["inputs", "histories"], "every image size, window size, access hint and sequence of accesses",
 "Tests walk a few fixed patterns.",
 ["SEFramework/SEFramework/Image/ImageAccessor.h", "SEUtils/SEUtils/PixelCoordinate.h"], [("chunk moved with the access", "ImageAccessor::nextCoordinates")],
 claimed=True, tech=TECH, note="The window protocol is model checked for every small image, window, hint and sequence of reads; random walks of the real accessor over plain and composed images are validated by TLC.")
prop("C14", "Range queries on the spatial indices are exact",
 "A range query on the quad tree or the k-d tree returns every stored point within the radius, no other point, and none twice, whatever the positions (including identical and far away ones), the order of additions and removals, and the capacity. No sequence of additions makes an index hang or crash.",
 ["inputs", "histories"], "every set and order of points, removals, query positions and radii, every node capacity",
 "Tests use a few points below the capacity of one node.",
 ["SEUtils/SEUtils/_impl/QuadTree.icpp", "SEUtils/SEUtils/QuadTree.h", "SEUtils/SEUtils/_impl/KdTree.icpp", "SEUtils/SEUtils/KdTree.h"],
 [("pruning by the box of a subtree", "QuadTree::getPointsWithinRange"), ("splitting", "QuadTree::split, KdTree::Split")],
 claimed=True, tech=TECH, note="Quad tree design model checked over all short histories on a grid, with the original pruning as negative control; thousands of random histories of the real trees (small capacities, ties, clusters, outliers) validated by TLC with exact integer distances.")
prop("C15", "Traversal along the Hilbert curve visits every tile exactly once",
 "The Hilbert curve of a size visits every cell of the square of the next power of two exactly once, each one a neighbour of the one before; the BFS segmentation, which goes over the tiles of a frame along it, reads every pixel of the image exactly once, tile by tile, for every image and tile size.",
 ["inputs"], "every image and tile size",
 "Tests cover one or two sizes.",
 ["SEUtils/SEUtils/HilbertCurve.h", "SEUtils/SEUtils/Misc.h", "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp"], [("bits of the index", "HilbertCurve::get2DCoordinate"), ("tiles along the curve", "BFSSegmentation::getTiles")],
 claimed=True, tech=TECH, note="The recursive definition is model checked up to 64x64 cells; the real curve is checked for every size up to 40 (thorough: 130) and the rectangles really read by the segmentation for thousands of random image and tile sizes.")
prop("C16", "Model parameters always reflect the parameters they depend on",
 "After any sequence of creations, updates and removals a derived model parameter has exactly the value its definition gives for the current values of the parameters it depends on, directly or through other derived parameters, whether or not anybody observed it before; every observer of a changed value is told, last of all the new value, and nobody else is; a residual of a parameter is computed from its current value. A derived parameter keeps alive what it depends on, and one that has been dropped by everybody is destroyed, is neither told nor touched again.",
 ["histories"], "every dependency graph and every sequence of updates, observer registrations and removals, and destructions",
 "Tests update one parameter of a two-level dependency.",
 ["ModelFitting/src/lib/Parameters/BasicParameter.cpp", "ModelFitting/src/lib/Parameters/ManualParameter.cpp", "ModelFitting/ModelFitting/Parameters/DependentParameter.h", "ModelFitting/ModelFitting/Parameters/_impl/DependentParameter.icpp", "ModelFitting/src/lib/Engine/WorldValueResidual.cpp"],
 [("observers told", "BasicParameter::setValue"), ("observing its inputs", "DependentParameter")],
 claimed=True, tech=TECH, note="ParamsModel.tla explores every small dependency graph with sets, observers and drops (stale and dangling variants as negative controls); thousands of random histories of the real parameters, run with the address sanitizer, are checked against Params.tla by TLC.")
prop("C17", "Fitting parameters stay within bounds and survive the engine round trip",
 "Every engine value maps to a value strictly inside or at the limits of the parameter's range, the mapping is increasing, its reported derivative is its slope, and mapping a value to engine space gives a finite engine value that maps back to it (to the nearest limit for values outside); ranges whose limits are inverted, or not positive for an exponential one, are refused. The manager hands values to the right parameters in registration order, each exactly once, reports exactly them and nothing beyond, and converts a covariance matrix with the slope of each row and column; whoever observes a parameter sees a world and an engine value that belong together.",
 ["inputs", "histories"], "every range, value and engine value, every registration order",
 "Tests check a few numbers.",
 ["ModelFitting/src/lib/Engine/EngineParameterManager.cpp", "ModelFitting/src/lib/Parameters/EngineParameter.cpp", "ModelFitting/src/lib/Parameters/SigmoidConverter.cpp", "ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp", "ModelFitting/src/lib/Parameters/NormalizedConverter.cpp", "ModelFitting/src/lib/Parameters/NeutralConverter.cpp"],
 [("converters", "worldToEngine/engineToWorld/getEngineToWorldDerivative"), ("both values", "EngineParameter::setValue/setEngineValue")],
 claimed=True, tech=TECH, note="Fitting.tla gives the mappings at engine values where they are rational, their laws for any value and the manager's state; thousands of random ranges, values and manager histories of the real code are compared with it by TLC.")
prop("C18", "The residuals seen by the fit are those of every block, in place",
 "The residual vector handed to the optimizer is the concatenation of the residuals of all registered blocks in registration order, each exactly once and of the announced size and nothing beyond it; each number is its comparator's of the data, the current model and the weight at that place (chi-square, its logarithmic and its asinh form, the difference of a parameter's current world or engine value from its prior); weights of zero contribute nothing, and data, model and weights of different sizes are refused.",
 ["inputs", "configurations"], "every number, size and order of residual blocks, data, models and weights",
 "Tests use single blocks.",
 ["ModelFitting/src/lib/Engine/ResidualEstimator.cpp", "ModelFitting/ModelFitting/Engine/_impl/DataVsModelResiduals.icpp", "ModelFitting/ModelFitting/Engine/ChiSquareComparator.h", "ModelFitting/ModelFitting/Engine/LogChiSquareComparator.h", "ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h", "ModelFitting/src/lib/Engine/WorldValueResidual.cpp", "ModelFitting/src/lib/Engine/EngineValueResidual.cpp"],
 [("blocks written one after the other", "ResidualEstimator::populateResiduals")],
 claimed=True, tech=TECH, note="Fitting.tla gives every block's numbers from the parameters' current values; thousands of random sequences of blocks, parameter changes and output iterators of the real estimator are compared with it by TLC.")
prop("C19", "Aperture photometry adds exactly the pixels of the aperture",
 "The flux, variance and area of an aperture are the sums over the pixels of the image of the pixel's value times the fraction of it the aperture covers, wherever the centre is and whatever the linear map from the detection frame: no pixel inside the aperture is lost, pixels outside the image never contribute, masked pixels are replaced by their mirror pixel around the centre when symmetry is used and otherwise contribute nothing. An aperture cut by the border sets BOUNDARY, one entirely outside sets OUTSIDE and measures zero, more than a tenth of masked pixels sets BIASED and more than a tenth of pixels of other objects on the detection frame sets NEIGHBORS. The error adds the shot noise of the gain, the magnitude is that of the flux and NaN when it is not positive; each fixed aperture gets the values and detection flags of its own diameter and the automatic one the Kron radius but at least the minimum radius; the growth curve is the flux in 64 equal steps up to its limit and the Kron radius the first moment of the radius over the unmasked pixels of the source's surroundings.",
 ["inputs", "configurations"], "every centre, radius, ellipse, Jacobian, image, variance, mask and position relative to the border",
 "Tests use integer radii and constant images far from the border.",
 ["SEFramework/src/lib/Aperture/FluxMeasurement.cpp", "SEFramework/src/lib/Aperture/CircularAperture.cpp", "SEFramework/src/lib/Aperture/EllipticalAperture.cpp", "SEFramework/src/lib/Aperture/TransformedAperture.cpp", "SEFramework/src/lib/Aperture/Flagging.cpp", "SEFramework/src/lib/Aperture/NeighbourInfo.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp", "SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp", "SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp"],
 [("bounding boxes", "getMinPixel/getMaxPixel"), ("loop over the box", "measureFlux"), ("flags of the detection frame", "computeFlags"), ("rings", "GrowthCurveTask::computeProperties")],
 claimed=True, tech=TECH, note="Photometry.tla sums the pixels of an aperture in whole numbers (its laws model-checked, truncated boxes as negative control); thousands of random apertures, images and sources measured by the real tasks are compared with it by TLC.")
prop("C20", "Flags combine as a set, are given for the right reason and always printable",
 "Combining flags never loses or invents one, and every combination of the defined flags can be written both as a number and as names, each set flag appearing exactly once. A source is flagged, per group of measurement frames, with exactly the flags its frames give: saturated when a pixel of its rectangle in the original image of a frame reaches the saturation level, at the boundary when its rectangle touches the border, badly projected, or blended when it came out of another detection. An external flag is exactly the OR, AND, minimum, maximum or most frequent value of the flag image of its HDU over the source's pixels with the number of pixels behind it, and a flag image of another size is refused.",
 ["inputs", "configurations"],
 "every combination of flags; every image, rectangle, saturation level, grouping of frames, flag image and pixel list", "Tests print two flags.",
 ["SEFramework/SEFramework/Source/SourceFlags.h", "SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp", "SEImplementation/SEImplementation/Plugin/SaturateFlag/SaturateFlagSourceTask.h", "SEImplementation/SEImplementation/Plugin/BoundaryFlag/BoundaryFlagSourceTask.h", "SEImplementation/SEImplementation/Plugin/BlendedFlag/BlendedFlagTask.h", "SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp"],
 [("table of names", "SourceFlags.h FlagsStr"), ("combination over frames", "SourceFlagsSourceTask::computeProperties"), ("combination over pixels", "ExternalFlagCombineTypes")],
 claimed=True, tech=TECH, note="The printing loop model-checked over all 2^12 combinations (with a missing name as negative control); all combinations printed by the real code, random combinations, and random sources with their flags from the real tasks compared by TLC with the set definitions.")
prop("C21", "The catalogue holds one row per source, in order, in the right part",
 "Whatever the flush size, the format and the number of frames, the catalogue holds exactly one row for every source that was output, in output order, in the part that belongs to its frame (CATALOG or LDAC_OBJECTS for the first frame, then with the number of the frame), with exactly the columns of the requested properties in the requested order, each property once, one column per configured instance, with their name, type, unit, description and the value of that instance. With a positive flush size fewer than that many rows wait to be written, otherwise all of them until the end of the frame; the number of rows reported is the number written. The first rows written make a new file, whichever frame they come from, all others are added to it. In the LDAC format the rows of a frame follow one header with the metadata, gain and noise of that frame. Unknown formats and properties, and configurations that give no column, are refused.",
 ["histories", "configurations"], "every sequence of sources, flushes and part changes, every flush size, format, column registration and property list",
 "Tests write two rows once.",
 ["SEImplementation/SEImplementation/Output/FlushableOutput.h", "SEImplementation/SEImplementation/Output/FitsOutput.h", "SEImplementation/SEImplementation/Output/AsciiOutput.h", "SEImplementation/src/lib/Output/LdacOutput.cpp", "SEFramework/src/lib/Output/OutputRegistry.cpp", "SEFramework/SEFramework/Output/OutputRegistry.h", "SEImplementation/src/lib/Output/OutputFactory.cpp", "SEImplementation/src/lib/Configuration/OutputConfig.cpp"],
 [("buffered rows", "FlushableOutput::outputSource/flush"), ("columns", "OutputRegistry::getSourceToRowConverter"), ("parts", "nextPart")],
 claimed=True, tech=TECH, note="CatalogModel.tla model-checks buffering and parts (replacing the file only for the first part as negative control); thousands of random registrations, configurations and output histories of the real outputs, recorded by stand-ins of the table writers, are compared with Catalog.tla by TLC.")
prop("C22", "Progress counts every event exactly once",
 "Every detection, and every member of a deblended or measured group, is counted exactly once whatever threads report it and whenever they do. Whenever progress is shown, each count lies between what had been reported and what was being reported, no count goes backwards, and one thread shows at a time; once every report has returned the last progress shown is the complete one, and the end is announced once. The log reporter prints the progress it was given last and, however long its minimum interval, always the final one.",
 ["schedules", "histories"], "every interleaving of the reports of the pipeline's thread and the measurement workers", "Tests do not report from several threads.",
 ["SEMain/src/lib/ProgressMediator.cpp", "SEMain/SEMain/ProgressMediator.h", "SEMain/src/lib/ProgressLogger.cpp"], [("atomic counters, shown under the mediator's lock", "ProgressMediator::update"), ("throttled unless done", "ProgressLogger::print")],
 observe=["messages to the mediator's observers, what the observers of progress are told, log lines"],
 claimed=True, tech=TECH, note="Progress.tla model-checked with three wrong orders of the steps as negative controls; thousands of controlled schedules of the real mediator and logger validated by TLC, and runs with threads really in parallel under ThreadSanitizer. The ncurses reporter is not exercised (no terminal).")
prop("C23", "The catalogue does not depend on the number of threads or on timing",
 "The program run on the same images with the same configuration gives the same catalogue with any number of threads, any queue and flush size, with or without prefetching and under any schedule: the same rows with the same numbers and values, the same groups, in the same part. Parts follow the frames in order, a part holds the rows of one frame only and all of them; with sorting the rows are numbered 1, 2, 3 in the order of the file, without it the order within a part may differ but members of a group stay together. With nothing but segmentation, the rows of a frame are exactly the connected groups of detected pixels of that frame, with their bounding box, number of pixels and highest pixel, in the order of detection.",
 ["schedules", "configurations", "inputs"], "every schedule, thread count, queue and flush size, file format, set of frames and image",
 "No test runs the whole pipeline.",
 ["SEMain/src/program/SourceXtractor.cpp", "SEImplementation/src/lib/Prefetcher/Prefetcher.cpp", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp", "SEMain/src/lib/Sorter.cpp"],
 [("order restored by the sorter, numbers forced in order", "MultithreadedMeasurement::receiveSource, Sorter::receiveSource"), ("each part closed after all stages are drained", "SourceXtractor.cpp, mainMethod")],
 observe=["the rows handed to the catalogue writer, part by part, by the program's main function"],
 claimed=True, tech=TECH, note="Program.tla (main thread, prefetching, grouping, measurement, sorter, parts) model-checked with three missing synchronizations as negative controls; the real main function with all its plugins is run on random images in four configurations of threads per case, with the pool's scheduling points disturbed, and TLC compares the catalogues with each other and, in the plain mode, with the components of the images. Trusts the stand-ins for Alexandria's tables, pool and configuration.")
prop("C25", "The background model follows its definition cell by cell",
 "The background of an image is modelled cell by cell: a cell with at least half of its pixels usable (not masked, variance below the threshold) gets the clipped level and spread of those pixels, whatever their unit (a cell of one level gets exactly that level and no spread; a few outliers change nothing), any other cell is undefined. An undefined cell takes the mean of the nearest defined ones (0 if there is none), then level and spread are smoothed by a median filter whose window shrinks evenly at the borders and never leaves the grid, whatever its size. The background passes through the values of the grid at the centres of the grid's steps, however it is read; the reported rms is the median spread; the variance is the squared spread, or with a weight map the weight map's scaling is the median ratio of variance to weight over the cells that have both, and 1 if none has. Without cells the level is the upper median of the pixels and the variance the mean square of those below it. Sizes that do not match and impossible options are refused.",
 ["inputs", "configurations"], "every image, weight map, mask, cell size, smoothing box, unit", "Tests filter one fixed grid and replace one or two undefined cells of a 5x5 image.",
 ["SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp", "SEImplementation/src/lib/Background/SE/ImageMode.cpp", "SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h", "SEImplementation/SEImplementation/Background/SE/MedianFilter.h", "SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp", "SEFramework/SEFramework/Image/ScaledImageSource.h", "SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp"],
 [("window of the median filter", "MedianFilter::clip"), ("scaling of the weight map", "computeScaling"), ("first cut and bins", "KappaSigmaBinning::computeBins"), ("iterative clipping", "ImageMode::getBackGuess")],
 claimed=True, tech=TECH, note="Background.tla computes grids exactly (level and spread of arbitrary level distributions up to the width of a histogram bin, skipping cases within a bin of a decision); symmetry laws are model-checked with a shifted window and a first-neighbour filling as negative controls; thousands of random images, grids and cells through the real code are validated by TLC. Trusts the stand-ins for Alexandria's histogram and spline.")
prop("C28", "A frame's derived images always belong to its current inputs",
 "After any sequence of changing a frame's background, variance, variance limit, detection threshold or filter, every derived image (interpolated, background-subtracted, filtered, thresholded, signal-to-noise, variance with and without filter, threshold map) is the one its definition gives for the current inputs: interpolation of the original image and variance, minus the background, through the filter (which is given the interpolated variance and the limit), minus the threshold times the root of the filtered, never negative variance; the threshold map belongs to the original variance. A frame made without a variance limit stays without.",
 ["histories"], "every sequence of settings and requests", "Tests check single settings.",
 ["SEFramework/src/lib/Frame/Frame.cpp", "SEFramework/SEFramework/Frame/Frame.h"], [("filtered image rebuilt on change", "Frame::setFilter and the other setters")],
 claimed=True, tech=TECH, note="A model of what the frame keeps and rebuilds, with a forgetful setter as negative control; random histories of settings and requests on the real frame validated by TLC pixel by pixel.")
prop("C24", "After a fit the parameters hold the best solution found",
 "The optimizer starts from the current values of the registered parameters, every point it evaluates is given to all of them before the residuals are computed, and when it ends the parameters hold the solution it found, not merely the last point it tried; the reported cost, the uncertainties (square root of the diagonal of the covariance, in world units), the number of iterations, the stop reason and the status belong to that solution. A linear least squares problem ends at its exact solution whatever the converters of the parameters. The engine is the one asked for by name, and levmar unless another is asked for when it is available.",
 ["inputs", "histories"], "every problem, start point, converter, sequence of points the optimizer tries and reason it stops for",
 "Tests fit one Gaussian and look only at the values of parameters to a few digits.",
 ["ModelFitting/src/lib/Engine/GSLEngine.cpp", "ModelFitting/src/lib/Engine/LevmarEngine.cpp", "ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp"],
 [("the end of the fit", "GSLEngine::solveProblem"), ("the end of the fit", "LevmarEngine::solveProblem")],
 claimed=True, tech=TECH, note="Fitting.tla solves linear problems exactly and follows an optimizer that tries any points (laws model-checked, a lost result as negative control); the real GSL engine on thousands of random linear problems, and the real levmar engine driven by a stand-in of the library that tries given points, are compared with it by TLC.")
prop("C27", "FITS files hold what was written and are read as they are",
 "An image source opened on a FITS file is bound to one HDU, the number it was asked for, or else the HDU the file opens at (the first image or the one of the extended file name), whatever was read, written or appended before through other sources; asking for an HDU without a 2-D image or cube fails. It reports the dimensions, depth and (automatic) pixel type of that HDU, plain or compressed; every window of every layer reads the file's pixels, the first layer unless another is set, and a layer that does not exist is refused. A new image is zero, is added at the end of the file (after an empty primary HDU if asked for and there is no image yet) and leaves the other HDUs alone; pixels saved in a window change these pixels only, for every later reader and in the file. The metadata of an HDU are the cards of its header, typed (integer, real, logical, string, which may hold slashes, quotes, equal signs or nothing), overridden by those of its section of the .head file (one section per image HDU, in order); metadata that are set are read back and stored with their type.",
 ["inputs", "histories"], "every file structure, header, .head file and sequence of operations on several sources", "Tests open a handful of fixed files.",
 ["SEFramework/src/lib/FITS/FitsImageSource.cpp", "SEFramework/src/lib/FITS/FitsFile.cpp", "SEFramework/SEFramework/FITS/FitsWriter.h"],
 [("the HDU selected before each access", "FitsImageSource::switchHdu"), ("headers overridden by .head sections", "FitsFile::loadHeadFile"), ("file structure reloaded after an append", "FitsFile::refresh")],
 claimed=True, tech=TECH, note="FitsHandle.tla models sources sharing pooled file handles (negative controls: no selection of the HDU; default HDU taken from a pooled handle); FitsTrace.tla follows the contents of the files; thousands of random histories on real files, read back with cfitsio in the end, are validated by TLC. Trusts cfitsio and the stand-in of Alexandria's file pool.")
prop("C26", "Frames are what options, headers and the configuration script say",
 "Every image HDU of the detection file (or only the one named by [n]) gives one detection frame, in order, with its own metadata and coordinate system; gain, saturation and flux scale come from the options, else from the header of that HDU, else 0 (flux scale 1). Pixels and saturation are multiplied by the flux scale, the gain divided by it. Weights are turned into variances by their type (rms squared, variance as is, weight inverted and infinite where not positive) after the weight scaling; the weight threshold by the same rule, without a threshold there is no limit; an absolute map and its threshold are both multiplied by the squared flux scale, so that which pixels are bad never depends on the flux scale. The variance of a frame is an absolute map itself, a relative map and its threshold times the scaling of the background model, and without a map the variance of that model; the background is the model's unless a constant is asked for. Bad pixels are filled from the nearest good one left or above within the interpolation gap (none on measurement frames). A measurement image takes everything from its own description (file, HDU, layer, weight file, HDU, layer, gain, saturation, flux scale, threshold, background); without any, the first detection image is measured, unchanged. What contradicts itself is refused: unknown weight types, a weight map without a proper type or the reverse, absolute weights without a map, both detection and reference image, missing files, impossible layers, header keywords that are not numbers.",
 ["inputs", "configurations"], "every file, header, option and measurement image", "No test runs the detection or measurement image, weight and frame configurations; the arithmetic of scales and thresholds is spread over five classes.",
 ["SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp", "SEImplementation/src/lib/Configuration/WeightImageConfig.cpp", "SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp", "SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp", "SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp", "SEImplementation/src/lib/Background/BackgroundAnalyzerFactory.cpp", "SEFramework/SEFramework/Image/InterpolatedImageSource.h"],
 [("options, headers and flux scale", "DetectionImageConfig::initialize"), ("weights to variances", "WeightImageConfig::initialize, WeightMapImageSource"), ("measurement images", "MeasurementImageConfig::initialize"), ("frames", "DetectionFrameConfig::initialize, MeasurementFrameConfig::initialize")],
 claimed=True, tech=TECH, note="FrameConf.tla defines the arithmetic exactly in integers; its laws (bad pixels, signal to noise, electrons and saturation independent of the flux scale; equivalence of the weight types; filling) are model-checked with the unscaled threshold as negative control; thousands of random files, option sets and measurement images through the real configuration classes are validated by TLC. The Python interpreter is replaced by a list of measurement images.")
prop("C29", "What the catalogue says of a source follows from its pixels",
 "For every source of every image: the box, the number of pixels, the highest pixel and where it is, the barycentre (counted from 1), the flux and its error with the variance of the pixels and the gain, signal to noise, magnitudes and their errors; semi-axes and position angle that reproduce the second moments about the barycentre in every direction (also along the diagonals), the same ellipse as a quadratic form, made regular by the width of a pixel when the source is a line; the variances of the barycentre and the ellipse along them; the position in world coordinates; a stamp inside the image with the source and its surroundings in it. A vignet shows, in every measurement frame, the pixels around the source at their place: its own, those of the sky, and the filling value outside the frame and on the pixels of other sources, wherever the two frames overlap; apertures are given per frame in the order in which they were asked for, and one that holds the whole frame has the frame's sum.",
 ["inputs", "configurations"], "every image, variance map, gain, zero point, orientation and position of the frames", "Tests check single formulas on one source far from the borders; none looks at error ellipses, diagonal sources or frames that do not coincide.",
 ["SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp", "SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp", "SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp", "SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp", "SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h", "SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp", "SEImplementation/src/lib/Plugin/WorldCentroid/WorldCentroidTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp"],
 [("position angle and regularisation", "ShapeParametersTask::computeProperties"), ("error ellipse", "ErrorEllipseTask::computeProperties"), ("pixels of other sources left out", "VignetSourceTask::computeProperties")],
 observe=["columns of the catalogue written by the program"],
 claimed=True, tech=TECH, note="Quant.tla computes every quantity exactly in integers (moments as fractions); QuantLaws.tla model-checks their laws (translation, rotation, mirror, scaling, possible ellipses) with moments about the origin as negative control. The real program is run on hundreds to thousands of images with lines, diagonals and nearly singular sources, frames shifted, scaled and mirrored against each other, and TLC validates the rows. Pixels at exact ties of rounding may go either way; shapes are checked for sources of up to 16 pixels.")
prop("C30", "The program works with what the configuration script says",
 "What a measurement configuration script says is what the program works with, for every script: an image is the file, extension, layer, PSF and weight the call names, matched in order when several are loaded at once (multi-extension files, lists, cubes), with gain, saturation and flux scale from the argument, else from the header keyword, else the default; mismatched numbers of files and meaningless arguments are refused with the documented exception and nothing is dropped silently. Splitting a group of images by keyword or pattern partitions it, each subgroup holding exactly the images of its key in their order; a measurement group stays what it was when it was made. Apertures, models and priors reach exactly the images and parameters they were given for; every parameter needed by a model, a column or a prior, directly or through others, is known to the program; columns keep the parameters and their order; settings arrive as set. Parameters evaluate to what the script's expressions say of a source, and get_world_parameters gives the position, axes and angle of the ellipse in the sky.",
 ["inputs", "histories"], "every sequence of configuration calls, with every layout of the files they name", "Tests of the configuration load a single image and split one fixed list; nothing checks companions, cubes, nested groups or which parameters are registered.",
 ["SEImplementation/python/sourcextractor/config/measurement_images.py", "SEImplementation/python/sourcextractor/config/measurement_config.py", "SEImplementation/python/sourcextractor/config/model_fitting.py", "SEImplementation/python/sourcextractor/config/argv.py", "SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp", "SEImplementation/src/lib/PythonConfig/PyFitsFile.cpp", "SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp", "SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryConfig.cpp"],
 [("grouping and freezing", "ImageGroup.split, ByKeyword, ByPattern, MeasurementGroup"), ("matching of companions", "MeasurementConfig.load_fits_image, load_fits_images, load_fits_data_cube"), ("registration of parameters", "ModelFitting._register_parameter"), ("handing over to the program", "PythonInterpreter, ModelFittingConfig::initializeInner")],
 observe=["objects of the configuration package", "what PythonInterpreter, ModelFittingConfig and AperturePhotometryConfig give the rest of the program"],
 claimed=True, tech=TECH, note="PyConf.tla gives every configuration call as a function from state to state or error; PyConfModel.tla model-checks all scripts of a few calls (splitting partitions every group, frozen groups stay, everything needed is registered, nothing depends on itself), with registering only the first parameter of a column as negative control. Random scripts of up to 30 calls over random FITS files run in the program's own interpreter; TLC validates every step and what the program ends up with. The Pyston and astropy packages are stand-ins.")
prop("C05", "The filter for detection is a weighted mean of the usable pixels around",
 "With filtering on, every pixel of the image used for detection (and of its variance) is the mean of the usable pixels around it, weighted with the kernel turned as a convolution turns it: a point source becomes the kernel, a flat image stays flat up to its borders and around holes, pixels whose variance is at or above the threshold become 0 and count for nothing whatever their value (NaN too). This holds for every kernel with positive weights, odd or even, narrow (summed directly) or wide (by Fourier transform), and does not depend on the tiles in which the image is computed or on the order in which it is read. The kernel is the one of the file, ASCII (comments, blank lines, any spacing) or FITS, the documented 3x3 one by default and none when filtering is off; a file that is missing or not a rectangle of numbers under a CONV line is refused, as is an unknown segmentation algorithm.",
 ["inputs", "configurations"], "every image, mask, kernel file and size of tiles", "Tests filter a few fixed images with one 3x3 kernel in one tile; none has an even kernel, several tiles or a malformed file.",
 ["SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp", "SEFramework/SEFramework/Convolution/DFT.h", "SEFramework/SEFramework/FFT/FFTHelper.h", "SEFramework/src/lib/FFT/FFT.cpp", "SEImplementation/src/lib/Configuration/SegmentationConfig.cpp"],
 [("direct sum", "BgConvolutionImageSource::generateTile"), ("transform", "BgDFTConvolutionImageSource::generateTile, DFTConvolution::convolve, padKernel"), ("loading", "SegmentationConfig::loadASCIIFilter, loadFITSFilter")],
 observe=["image returned by BackgroundConvolution::processImage", "SegmentationConfig::getFilter"],
 claimed=True, tech=TECH, note="Filter.tla defines the filter in integers; FilterModel.tla runs the tile by tile algorithms (direct and by transform, with every padding) index by index and model-checks that they are the definition for all widths, kernels, tiles and paddings within bounds, with no halo, a misplaced centre and too small a circle as negative controls; FilterLaws.tla model-checks its laws on every small image and mask. Random filter files are loaded by the program's configuration and applied to random images with random tile sizes; TLC validates every pixel to the accuracy of single precision.")
prop("C31", "A detection is associated with the right objects of the catalogue",
 "For every catalogue, its columns and options: the position, weight, group, size and copied columns of every object are those the options or the configuration file name (columns counted from 1, a line without a number means the column after the one of the line before, the first line the first column; no coordinates, a missing or non-numeric column or an unknown mode are refused); positions given in pixels count from 1, celestial ones are projected into every detection image. A detection matches exactly when an object lies less than the radius away from its centroid in its own image, however large the catalogue is. A match carries what the mode says: the columns, group and size of the first, the nearest, the lightest or the heaviest matching object, or the sums or (weighted) means of the columns, magnitudes being added as fluxes. With the filter MATCHED or UNMATCHED the program's rows are the matching or the other rows it gives with ALL, whatever steps the partition has. Grouping by the catalogue puts together just the sources of one group. Without a detection image every object of the catalogue becomes a source with its position, columns, size and group, and the part of a measurement image that is read for it covers its size.",
 ["inputs", "configurations"], "every catalogue, column layout, option set, detection and image scale",
 "Tests associate one detection with three objects through a hand-made task; nothing reads a catalogue, its configuration file, more than a hundred objects or runs the filter.",
 ["SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModePartitionStep.cpp", "SEUtils/SEUtils/KdTree.h", "SEUtils/SEUtils/_impl/KdTree.icpp", "SEImplementation/src/lib/Segmentation/AssocSegmentation.cpp", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTaskNoDetect.cpp", "SEImplementation/src/lib/PythonConfig/ObjectInfo.cpp"],
 [("columns", "AssocModeConfig::readConfigFromFile, readConfigFromParams, parseConfigFile"), ("search", "KdTree::findPointsWithinRadius"), ("modes", "AssocModeTask::computeProperties"), ("filter", "AssocModePartitionStep::partition"), ("catalogue as detections", "AssocSegmentation, MeasurementFrameRectangleTaskNoDetect")],
 observe=["AssocModeConfig::getCatalogs, getColumnsIdx, getColumnsNames", "AssocMode of detections", "rows of the program's catalogue"],
 claimed=True, tech=TECH, note="KdTree.tla runs the splitting and search of the tree and model-checks for all small catalogues and queries that it finds what a look at every object finds, in the order of the catalogue (negative controls: only one half searched, order of the tree). Assoc.tla defines columns, matches, modes and rectangles; thousands of random catalogues (up to 240 objects), option sets and configuration files through the real configuration, task, filter and segmentation are validated by TLC against it, and hundreds of runs of the whole program with the three filters.")
prop("C32", "Check images show what the program did",
 "For every image, extension, option set and number of threads: every check image asked for is written, under its name (with the number of the extension before the suffix when there is more than one detection image, with the name and HDU of the image for measurement images), with the size and coordinates of the image it belongs to, and nothing else is written. The segmentation image gives every set of connected pixels above the threshold a number of its own (the detection_id of the rows made of it) and is 0 elsewhere; in the partition image the pixels with the source_id of a row are exactly those its area, box and flux come from, and every value is the id of a row; the grouping image shows the group_id of the source at every pixel. Background, variance, filtered, thresholded and SNR images hold the values detection works with. In the aperture images rings of every row's own apertures show, in the detection image and, mapped through the coordinates, in every measurement image, with the source_id; nothing is drawn elsewhere, whichever threads draw, however small the tiles and the memory for them.",
 ["inputs", "configurations", "schedules"], "every set of images, extensions, options, tile sizes and thread counts",
 "No test runs the program or reads a check image; the mistakes show with a second extension of another size, small tiles, several threads.",
 ["SEImplementation/src/lib/CheckImages/CheckImages.cpp", "SEImplementation/src/lib/CheckImages/SourceIdCheckImage.cpp", "SEImplementation/src/lib/CheckImages/DetectionIdCheckImage.cpp", "SEImplementation/src/lib/CheckImages/GroupIdCheckImage.cpp", "SEImplementation/SEImplementation/Image/LockedWriteableImage.h", "SEFramework/SEFramework/FITS/FitsWriter.h", "SEFramework/src/lib/FITS/FitsImageSource.cpp", "SEFramework/SEFramework/Aperture/FluxMeasurement.h", "SEFramework/src/lib/Aperture/CircularAperture.cpp", "SEFramework/src/lib/Aperture/EllipticalAperture.cpp", "SEFramework/src/lib/Aperture/TransformedAperture.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/ApertureFlagTask.cpp", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryFlagTask.cpp"],
 [("names, sizes, coordinates", "CheckImages::configure, saveImages, getMeasurementApertureImage"), ("ids", "DetectionIdCheckImage, SourceIdCheckImage, GroupIdCheckImage"), ("rings", "drawAperture, drawArea"), ("writing", "FitsWriter, FitsImageSource, LockedWriteableImage")],
 observe=["the check image files and their headers", "rows of the program's catalogue"],
 claimed=True, tech=TECH, note="CheckImg.tla lets several painters set the pixels of their objects one by one while tiles are written and dropped: at the end every pixel shows an object covering it (negative control: pixels set without the lock lose others' pixels). CheckImgTrace.tla says what every check image must hold given the input images and the rows; hundreds of random runs of the whole program (one or two extensions, measurement images with other coordinates, threads, small tiles) are validated by TLC against it, file by file.")
prop("C33", "Fitted fluxes are the best fit to the images, group by group",
 "For every set of measurement frames, PSF, variance, gain, saturation, window type and fit options: the flux (and level) reported for a source is the one that minimises the weighted squares of what is left of its measurement images in its window, over all the frames the source is on, with priors counted, a frame's amplitude taken from the parameter (free, constant, dependent) its model was given, saturated pixels and pixels outside the window left out, the gain counted in the noise, and the neighbours of the group subtracted (all of them at once in the classic fit; scaled by the deblend factor, in turn, for the set number of rounds in the iterative one). Errors, chi squared (reduced by the good pixels minus the fitted parameters, per round), iteration counts, fitting areas and round counts belong to that fit; dependent columns and their errors follow from the fitted ones, vectors from their elements. A source no frame sees is flagged OUTSIDE, one without pixels enough INSUFFICIENT_DATA, one with a parameter nothing constrains PARTIAL_FIT, and what was not fitted is reported as not a number. The model, residual and fitting-window check images show those models, the images without them, and those windows, whichever threads measure.",
 ["inputs", "configurations", "schedules"], "every image, PSF, noise, saturation, window type, model set, group and thread count",
 "Tests fit single hand-made sources with a stand-in image; coverage by several frames, groups, partial and empty windows, priors, dependent parameters and the catalogue columns are never run.",
 ["SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingParameter.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingPrior.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingModel.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingFactory.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.cpp", "SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp", "SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp", "SEImplementation/src/lib/CheckImages/CheckImages.cpp", "ModelFitting/ModelFitting/Engine", "ModelFitting/src/lib/Engine/GSLEngine.cpp", "ModelFitting/ModelFitting/Models/FrameModel.h"],
 [("the windows", "FlexibleModelFittingIterativeTask::getUnclippedFittingRect, clipFittingRect, createWeightImage"), ("rounds and neighbours", "FlexibleModelFittingIterativeTask::computeProperties, fitSource, createDeblendImage"), ("all at once", "FlexibleModelFittingTask::computeProperties"), ("columns", "FlexibleModelFittingFactory, FlexibleModelFittingConverterFactory")],
 observe=["FlexibleModelFitting columns of the program's catalogue", "model, residual and fitting-window check images"],
 claimed=True, tech=TECH, note="FitModel.tla fits the sources of a group in turn over rounds: everyone ends with a value or the flag that says why not, and the values go to the truth (negative controls: flags lost, neighbours subtracted once only). FitTrace.tla works the least squares of point sources and levels out in integers from the images of a case; hundreds of random runs of the whole program (one or two offset frames, PSF files, variance, gain, saturation, 8 window types, priors, classic or iterative fits, deblending, threads) are validated by TLC against it, row by row and check image by check image.")
