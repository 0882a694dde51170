// Runs the OpenCL decoder's initialization on the stand-in to learn what it would have compiled (P24).
#include <stdbool.h>
#include <stddef.h>
bool rle8m_opencl_init(const size_t inputDataSize, const size_t outputDataSize, const size_t maxSubsectionCount);
int main() { rle8m_opencl_init(100, 100, 10); return 0; }
