"""C08: deblending and cleaning conserve sources and pixels."""
import vp
SRC = ["ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp",
       "ModelFitting/src/lib/Models/PositionedModel.cpp",
       "ModelFitting/src/lib/Models/RotatedModelComponent.cpp",
       "ModelFitting/src/lib/Models/ScaledModelComponent.cpp",
       "ModelFitting/src/lib/Parameters/BasicParameter.cpp",
       "SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Pipeline/Deblending.cpp",
       "SEFramework/src/lib/Property/PropertyHolder.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEFramework/src/lib/Source/EntangledSource.cpp",
       "SEFramework/src/lib/Source/SimpleSourceGroup.cpp",
       "SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Task/TaskFactoryRegistry.cpp",
       "SEFramework/src/lib/Task/TaskProvider.cpp",
       "SEImplementation/src/lib/Deblending/Cleaning.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp",
       "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp",
       "SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp",
       "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp",
       "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp"]
def main(c):
    exe = vp.build("deblend", ["deblend.cpp"], SRC, libs=vp.ALLLIBS)
    c.model("Deblend", "Deblend.cfg", min_states=1000)
    out = c.path("deblend.ndjson")
    c.drive(exe, ["--n", 16000 if c.thorough else 2000, "--seed", c.seed * 100000 + 1], out)
    c.validate("DeblendTrace", "DeblendTrace.cfg", out, "deblend")
