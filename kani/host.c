/* The host's calls as the syscall proxy relies on them: each records what it was asked and returns
   what the contract harness chose, an arbitrary outcome. */
static long ret_;
static int errno_, calls_, what_, fd_;
static long arg_[2];
static unsigned char data_[4];

int host_set(long ret, int err, unsigned data)
{
  ret_ = ret; errno_ = err; calls_ = 0; what_ = 0; fd_ = 0; arg_[0] = arg_[1] = 0;
  for(int i = 0; i < 4; i++) data_[i] = (unsigned char)(data >> (8 * i));
  return 0;
}
int host_calls(void) { return calls_; }
int host_what(void) { return what_; }
int host_fd(void) { return fd_; }
long host_arg(int i) { return arg_[i]; }
unsigned host_data(void) { return data_[0] | data_[1] << 8 | data_[2] << 16 | (unsigned)data_[3] << 24; }

static long called(int what, int fd, long a0, long a1)
{
  calls_++; what_ = what; fd_ = fd; arg_[0] = a0; arg_[1] = a1;
  return ret_;
}
int *__errno_location(void) { return &errno_; }
int close(int fd) { return (int)called(57, fd, 0, 0); }
long lseek(int fd, long off, int whence) { return called(62, fd, off, whence); }
static long into(int what, int fd, unsigned char *buf, unsigned long n, long off)
{
  long r = called(what, fd, (long)n, off);
  for(long i = 0; i < 4; i++)
    if(i < r && i < (long)n) buf[i] = data_[i];
  return r;
}
static long from(int what, int fd, const unsigned char *buf, unsigned long n, long off)
{
  for(unsigned long i = 0; i < 4; i++)
    if(i < n) data_[i] = buf[i];
  return called(what, fd, (long)n, off);
}
long read(int fd, void *buf, unsigned long n) { return into(63, fd, buf, n, 0); }
long pread(int fd, void *buf, unsigned long n, long off) { return into(67, fd, buf, n, off); }
long write(int fd, const void *buf, unsigned long n) { return from(64, fd, buf, n, 0); }
long pwrite(int fd, const void *buf, unsigned long n, long off) { return from(68, fd, buf, n, off); }
int openat(int fd, const char *name, int flags, ...)
{
  for(int i = 0; i < 4; i++) data_[i] = 0;
  for(int i = 0; i < 4 && name[i]; i++) data_[i] = (unsigned char)name[i];
  return (int)called(56, fd, flags, 0);
}
int munmap(void *p, unsigned long n) { return 0; }
long sysconf(int name) { return 4096; }
/* a file's status: the eighteen words of the host's struct stat (x86-64) */
static unsigned long stat_[18];
int host_stat(int i, unsigned long w) { stat_[i] = w; return 0; }
static int status(int what, int fd, long flags, unsigned long *to)
{
  int r = (int)called(what, fd, flags, 0);
  if(r == 0)
    for(int i = 0; i < 18; i++) to[i] = stat_[i];
  return r;
}
int fstat(int fd, void *to) { return status(80, fd, 0, to); }
int fstatat(int fd, const char *name, void *to, int flags)
{
  for(int i = 0; i < 4; i++) data_[i] = 0;
  for(int i = 0; i < 4 && name[i]; i++) data_[i] = (unsigned char)name[i];
  return status(79, fd, flags, to);
}
