"""The whole program, linked from the sources with its plugins; only the libraries it needs are stand-ins."""
import os, vp
SRC = ["SEUtils/src/lib/**/*.cpp", "ModelFitting/src/lib/**/*.cpp", "SEFramework/src/lib/**/*.cpp", "SEImplementation/src/lib/**/*.cpp", "SEMain/src/lib/**/*.cpp"] + \
      ["!SEImplementation/src/lib/**/Onnx*.cpp", "!SEImplementation/src/lib/**/ML*.cpp", "!ModelFitting/src/lib/Engine/Levmar*.cpp"]
LIBS = vp.ALLLIBS + ["-lncurses", "-lreadline", "-lboost_python312", "-lpython3.12"]


def exe(driver):
    return vp.build(driver, [driver + ".cpp", "e2e_main.cpp"], SRC, libs=LIBS, whole=True)


def env():
    os.environ["PYTHONPATH"] = os.path.join(vp.VERIF, "stubs", "py") + ":" + os.path.join(vp.REPO, "SEImplementation", "python")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
