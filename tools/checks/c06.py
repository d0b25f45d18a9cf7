"""C06: segmentation publishes exactly the connected components above the threshold."""
import vp
SRC = ["SEFramework/src/lib/FFT/FFT.cpp",
       "SEFramework/src/lib/FITS/FitsFile.cpp",
       "SEFramework/src/lib/FITS/FitsImageSource.cpp",
       "SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Pipeline/Segmentation.cpp",
       "SEFramework/src/lib/Property/PropertyHolder.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Task/TaskFactoryRegistry.cpp",
       "SEFramework/src/lib/Task/TaskProvider.cpp",
       "SEImplementation/src/lib/Configuration/SegmentationConfig.cpp",
       "SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp",
       "SEImplementation/src/lib/Segmentation/AssocSegmentation.cpp",
       "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp",
       "SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp",
       "SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp",
       "SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp",
       "SEImplementation/src/lib/Segmentation/Lutz.cpp",
       "SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp",
       "SEImplementation/src/lib/Segmentation/SegmentationFactory.cpp"]
def main(c):
    exe = vp.build("segment", ["segment.cpp", "common/assoc_stub.cpp"], SRC, libs=vp.ALLLIBS)
    for cfg in (["Lutz_4x3.cfg", "Lutz_3x4.cfg", "Lutz_4x4.cfg", "Lutz_5x3.cfg"] if c.thorough else ["Lutz_4x3.cfg", "Lutz_3x4.cfg"]):
        c.model("Lutz", cfg, min_states=1000)
    out = c.path("all.ndjson")
    c.drive(exe, ["--n", 0, "--all", "44,53,35" if c.thorough else "33,42,24,34,43"], out)
    c.validate("SegTrace", "SegTrace.cfg", out, "segmentation of every small image")
    out = c.path("rand.ndjson")
    c.drive(exe, ["--n", 8000 if c.thorough else 1200, "--seed", c.seed * 100000 + 1, "--scratch", c.work], out)
    c.validate("SegTrace", "SegTrace.cfg", out, "segmentation")
