// A message of many gigabytes without the memory: one 64 MiB file mapped over and over.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
struct BigMsg {
  static const size_t W = 64u << 20; uint8_t *base; size_t total; int fd;
  BigMsg(H::Rng &r, size_t n) {
    total = (n + W - 1) / W * W;
    fd = memfd_create("msg", 0); if (fd < 0 || ftruncate(fd, W)) H::harness_error("memfd");
    base = (uint8_t *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) H::harness_error("mmap huge");
    for (size_t o = 0; o < total; o += W) if (mmap(base + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) H::harness_error("mmap window");
    r.fill(base, W);
  }
  ~BigMsg() { munmap(base, total); close(fd); }
};
