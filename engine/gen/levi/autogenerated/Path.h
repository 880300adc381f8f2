// stands for the header CMake generates from cmake/Path.auto (run-time code generation of levi is not used by the harnesses)
#ifndef LEVI_PATH_H
#define LEVI_PATH_H
#define LEVI_SOURCE_DIR "/nonexistent/levi"
#define LEVI_AUTOGENERATED_DIR "/nonexistent/levi/autogenerated"
#endif
