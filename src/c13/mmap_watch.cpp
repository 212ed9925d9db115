// mmap without populating (see lib/mmap_lazy.cpp) that remembers the largest request.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" size_t vh_mmap_largest;
size_t vh_mmap_largest = 0;
extern "C" void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
    if (fd < 0 && (flags & MAP_NORESERVE) == 0 && len > vh_mmap_largest) {
        vh_mmap_largest = len;
    }
    return reinterpret_cast<void*>(syscall(SYS_mmap, addr, len, prot, flags & ~(MAP_POPULATE | MAP_HUGETLB), fd, off));
}
