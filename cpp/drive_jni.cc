#include <jni.h>
#include <malloc.h>

extern "C" JNIEXPORT jlong JNICALL Java_Drive_live(JNIEnv*, jclass) {
  const struct mallinfo2 info = mallinfo2();
  return static_cast<jlong>(info.uordblks + info.hblkhd);
}
