// The library maps 1 GiB blocks with MAP_POPULATE, which costs seconds and memory per container.
// Harnesses that use many of them link this stand-in for mmap, which only drops that flag: pages
// come when touched.  Contents and addresses are as with the real call.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
    return reinterpret_cast<void*>(syscall(SYS_mmap, addr, len, prot, flags & ~(MAP_POPULATE | MAP_HUGETLB), fd, off));
}
