/*  Simulated kernel, controlled scheduler and explorer: the interface the
    harnesses use.  Everything here is plain data and functions implemented in
    the uninstrumented simulator objects. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

/* ---------- choices (explore.cpp) ---------- */
/*  Every nondeterministic decision of an execution goes through choose().
    Alternative 0 is the default. dev=false: all alternatives are free
    (enumerated completely); dev=true: an alternative other than 0 costs one
    deviation, and executions are explored up to a deviation bound. */
int choose(int n, char const* tag, bool dev);
inline int pick(int n, char const* tag) { return choose(n, tag, false); }
inline int deviate(int n, char const* tag) { return choose(n, tag, true); }

/*  Ends the execution and reports a violation of the property under check. */
[[noreturn]] void violation(std::string const& msg);
/*  The simulator was asked for something it does not model: an error of the
    check, never a violation. */
[[noreturn]] void unmodeled(std::string const& msg);
void note(std::string const& line);   /* trace for counterexamples */
void observe(std::string const& line);/* part of the outcome of the execution */
uint64_t outcome_hash();

/* ---------- simulated kernel ---------- */
struct Config {
  bool root = false;          /* geteuid() == 0 */
  int  real_uid = -1;         /* getuid(); -1: as geteuid() */
  bool fanotify_ok = true;    /* fanotify_init is permitted (when root) */
  int  fd_base = 3;           /* lowest free descriptor number */
  bool partial_reads = false; /* a read may return only the first k records: 1 deviation */
  bool partial_free = false;  /* ... as a free choice */
  int  queue_max = 16384;     /* inotify queue length before overflow */
  bool fan_overflow = false;  /* honour queue_max for fanotify too */
  bool dtype_unknown = false; /* readdir gives DT_UNKNOWN */
  bool epoll_rev = false;     /* what became ready last comes first */
  bool epoll_order = true;    /* explore both orders of ready descriptors */
  int  handle_bytes = 8;      /* fanotify handle size */
  bool read_points = true;    /* syscalls are scheduling points */
  std::string cwd = "/cwd";
  int  cwd_fs = 0;            /* filesystem id of the cwd (mount for AT_FDCWD handles) */
  int  wd_max = 1 << 30;      /* inotify watch limit -> ENOSPC */
  bool readdir_rev = false;   /* readdir gives entries newest first */
  long step_max = 200000;     /* livelock horizon */
  int  fa_info_extra = 0;     /* prepend an unknown info record (future kernels) */
  long spin_limit = 2000;     /* scheduling points after which a running thread lets others go first */
  std::string refill;         /* a directory in which something happens after every read */
  bool fan_merge = true;      /* model fanotify event merging */
};
extern Config cfg;

/*  Fault injection: which failures may happen at which call. */
struct FaultRule { std::string call; std::vector<int> errs; };
extern std::vector<FaultRule> faults;   /* each is a deviation */
void faults_enable(bool on);
int  faults_injected();
std::vector<std::string> const& fault_log();

void kernel_reset();
void kernel_restart();          /* an empty filesystem again, configuration and faults reset */
void fault_always(std::string const& call, int err); /* every such call fails, as configured */
std::vector<std::pair<int,bool>> instances(); /* live notification instances: number, is fanotify */
int inst_of_thread(int tid);    /* the last one this thread made (or reads), -1 */
long queued_of(int inst);       /* records waiting in it */
int inst_of(int w);             /* the notification instance made last */
/*  Environment operations on the simulated filesystem; each returns 0 or errno. */
int env_mkdir(std::string const& p);
int env_mkdirs(std::string const& p);     /* no events wanted: used for setup too */
int env_rmdir(std::string const& p);
int env_creat(std::string const& p);      /* create empty file (open O_CREAT|O_EXCL, close) */
int env_write(std::string const& p);      /* open, write, close an existing file */
int env_append(std::string const& p);     /* only the write itself */
int env_unlink(std::string const& p);
int env_rename(std::string const& a, std::string const& b);
int env_exchange(std::string const& a, std::string const& b);
int env_link(std::string const& a, std::string const& b);
int env_symlink(std::string const& target, std::string const& p);
int env_mkfifo(std::string const& p);
int env_chmod(std::string const& p);
int env_readfile(std::string const& p);
int env_listdir(std::string const& p);
int env_access_none(std::string const& p);/* directory made unreadable: opendir -> EACCES */
int env_setfs(std::string const& p, int fs); /* put a directory (subtree root) on another filesystem */
int env_hold(std::string const& p);       /* keep the directory open */
int env_release(std::string const& p_or_empty);
bool env_exists(std::string const& p);
bool env_isdir(std::string const& p);
std::vector<std::string> env_dirs(std::string const& under); /* real directories, incl. root */
std::vector<std::string> env_all(std::string const& under);
std::string env_tree(std::string const& under);
long env_mtime(std::string const& p);

/*  Which directories have a live watch (inotify wd or fanotify mark), by current path. */
std::vector<std::string> watched_dirs(int inst=-1); /* of one instance or all */

/*  A change as the kernel reported it: the oracle's ground truth. */
struct Rec {
  bool fan = false;
  int  inst = 0;             /* notification instance (order of creation) */
  uint64_t seq = 0;
  uint32_t mask = 0;
  uint32_t cookie = 0;
  int  wd = 0;
  int  dir_ino = 0;          /* the directory (0: none) */
  std::string dir_path;      /* its path when queued ("" if unlinked) */
  std::string name;          /* "" if none */
  int  reader = -1;          /* thread that read it */
  int  batch = -1;           /* read that delivered it, -1: still queued */
  bool last_in_batch = false;
  int64_t t_queued = 0, t_read = 0;
  bool dir_gone_at_read = false;
  bool outside = false;
  std::vector<std::string> paths_possible; /* fanotify: paths the directory had between queueing and callback */
};
std::vector<Rec> const& delivered();      /* records returned by read(), in order */
std::vector<std::string> const& unasked();  /* changes in watched directories the watcher did not ask to hear about */
size_t queued_count();                     /* records still in kernel queues */
std::string path_of_ino(int ino);         /* "" when unlinked */
std::vector<std::string> paths_of_ino_since(int ino, uint64_t seq); /* all paths it had since */
uint64_t now_seq();
int64_t now_ns();
void advance_ns(int64_t d);

/* ---------- descriptors ---------- */
struct Leak { std::string what; };
std::vector<std::string> open_resources(); /* descriptors and DIR streams currently open, made by the code under test */
std::vector<std::string> const& resource_errors(); /* double close, bad close, use after close */
int foreign_fd();                          /* environment opens a descriptor of its own */
bool foreign_ok(int fd);

/* ---------- scheduler ---------- */
void settle();            /* run everyone else until all are blocked; others go first */
void settle_pre();        /* same, but may be cut short at the cost of one deviation */
void settle_time(int64_t ns); /* settle, letting virtual time pass up to ns */
void yield_point(char const* tag);  /* an ordinary scheduling point */
int  self_id();
void yield_others_pub();  /* lets the others go first, once */
bool all_others_finished();
int  live_threads();
long steps();
int  syscalls_of_others();   /* number of kernel calls made by non-environment threads */
void no_switch(bool on);     /* no preemption inside (environment multi-step set-up) */
void allow_env_preempt(bool on); /* environment may be scheduled at the watcher's kernel calls */
std::string thread_states();
int  callback_begin(int w);  /* bookkeeping for "never concurrent" */
void callback_end(int w);
void callback_reset();

/*  Direct injection of raw bytes as the result of the next read of a notification fd. */
void inject_raw(std::string const& bytes, std::vector<Rec> const& recs);
/*  Injects spurious conditions. */
void inject_overflow();      /* queue an overflow record */
void inject_rec(Rec r);      /* queue an inotify record as given */
void stdin_feed(std::string const& bytes, bool eof);
std::string& out_capture(int fd);  /* text written to descriptor 1 or 2 */
extern bool capture_output;
extern std::function<void(int fd, std::string const& line)> on_line; /* called with every whole line written to 1 or 2 */
void out_end();              /* the program ends: what was not flushed is written */

/* ---------- entry ---------- */
struct Scenario {
  std::string props;        /* the properties it is explored for, e.g. "C01 C02" */
  std::string name;
  std::function<void()> run;
  int  bound = 1;           /* deviation bound, quick */
  int  bound_thorough = 2;
  double weight = 1;        /* share of the time budget */
};
int explore_main(int argc, char** argv, std::vector<Scenario> const& all);
extern bool thorough;
extern std::string prop;    /* the property under check, "" for all */
/*  Whether a judgement counts for the property under check. */
bool enf(char const* props);
/*  Known findings, by the ids given with --known. */
bool known(char const* id);
void known_hit(char const* id);
} /* namespace sim */
