// Listed finding of C25: c_str() of a constant string writes the terminator into the string's storage.
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include "efp.hpp"

static sigjmp_buf g_back;
static void fault(int) { siglongjmp(g_back, 1); }
static char* g_page;
static const size_t kPage = 4096;

// every block is a page of its own, which can be made read-only
template<typename T>
struct PageAlloc {
    typedef T value_type;
    typedef T* pointer;
    PageAlloc() {}
    template<typename U> PageAlloc(const PageAlloc<U>&) {}
    template<typename U> struct rebind { typedef PageAlloc<U> other; };
    T* allocate(size_t) {
        void* p = mmap(nullptr, kPage, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) _exit(3);
        g_page = (char*)p;
        return (T*)p;
    }
    void deallocate(T* p, size_t) { munmap((void*)p, kPage); }
    friend bool operator==(const PageAlloc&, const PageAlloc&) { return true; }
    friend bool operator!=(const PageAlloc&, const PageAlloc&) { return false; }
};

int main() {
    efp::Vector<char, PageAlloc<char>> s;
    for (const char* p = "shared"; *p; ++p) s.push_back(*p);
    const efp::Vector<char, PageAlloc<char>>& shared = s;
    struct sigaction a;
    memset(&a, 0, sizeof(a));
    a.sa_handler = fault;
    sigaction(SIGSEGV, &a, nullptr);
    if (sigsetjmp(g_back, 1) == 0) {
        mprotect(g_page, kPage, PROT_READ);
        const char* p = shared.c_str();
        volatile char c = p[0];
        (void)c;
    } else {
        printf("FINDING c-str-writes c_str() of a constant string writes to the string's storage (two threads calling it race)\n");
    }
    mprotect(g_page, kPage, PROT_READ | PROT_WRITE);
    return 0;
}
