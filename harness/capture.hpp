// What a piece of code writes to the standard output.
#pragma once
#include <cstdio>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
struct Capture {
    int saved, fd;
    Capture() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    std::string text()
    {
        fflush(stdout); std::string r; char b[4096]; off_t p = 0; ssize_t n;
        while ((n = pread(fd, b, sizeof b, p)) > 0) { r.append(b, n); p += n; }
        return r;
    }
    ~Capture() { fflush(stdout); dup2(saved, 1); close(saved); close(fd); }
};
