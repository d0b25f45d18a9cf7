"""C07: partition steps split detections into disjoint parts of their own pixels."""
import vp
SRC = [
       "SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Pipeline/Partition.cpp",
       "SEFramework/src/lib/Property/PropertyHolder.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Task/TaskFactoryRegistry.cpp",
       "SEFramework/src/lib/Task/TaskProvider.cpp",
       "SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp",
       "SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp",
       "SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp",
       "SEImplementation/src/lib/Plugin/AssocMode/AssocModePartitionStep.cpp",
       "SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp",
       "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp",
       "SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp",
       "SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTaskFactory.cpp",
       "SEImplementation/src/lib/Segmentation/Lutz.cpp"]
def main(c):
    exe = vp.build("partition", ["partition.cpp"], SRC, libs=vp.ALLLIBS)
    for cfg in ("MultiThreshold_A.cfg", "MultiThreshold_B.cfg", "MultiThreshold_C.cfg"):
        c.model("MultiThreshold", cfg, min_states=10000)
    out = c.path("part.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2500, "--seed", c.seed * 100000 + 1], out)
    known = vp.findings("C07")
    key = "attractors-parts-without-id"
    if key in known and '"sid":-1' in open(out).read():
        c.known.append("%s: %s" % (key, known[key]))
    c.validate("PartTrace", "PartTrace.cfg", out, "partition", env={"KNOWN": ",".join(known) or "none"})
