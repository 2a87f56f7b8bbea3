/*  Recording of what a watcher tells its callback, and the judgement of it. */
#pragma once
#include "sim.h"
namespace sim {
enum { ET_RENAME, ET_MODIFY, ET_CREATE, ET_DESTROY, ET_OWNER, ET_OTHER };
enum { PT_DIR, PT_FILE, PT_HARD, PT_SYM, PT_WATCHER, PT_OTHER };
struct Ev { int w=0; std::string path; int et=0, pt=0; int64_t t=0; bool assoc=false; std::string apath; int aet=0, apt=0; bool aassoc=false; int thread=0; int64_t at=0; size_t nrec=0; uint64_t seq=0; };
std::string show(Ev const&);
/*  Called from the callback of watcher w. */
void rec_event(Ev const&);
std::vector<Ev> const& events();                 /* all, in order of delivery */
std::vector<Ev> events_of(int w);
std::vector<Ev> fs_events_of(int w);              /* without watcher messages */
std::vector<Ev> msgs_of(int w);
void rec_reset();
/*  The watcher w has been told to close and close() has returned r. Callbacks after this are violations. */
void rec_closed(int w);
bool starts(std::string const&, char const*);
bool under(std::string const& path, std::string const& root); /* strictly below root */

struct Expect { std::string root; std::string asked_abs; bool want_live=true; bool allow_fail=false; };
/*  Lifecycle (first live, last die, once each, consistent prefixes, well-formed messages). */
void check_lifecycle(int w, std::string const& asked_abs, bool closed_ret, bool may_fail);
/*  Every record the kernel gave to notification instance `inst` against the events of watcher w. */
void check_delivery(int w, int inst, std::string const& root, bool losses=false);
/*  Every directory of the tree under root is watched; nothing was left unasked. */
void check_coverage(std::string const& root, int inst=-1);
void check_resources();
std::vector<std::string> inst_msgs(int w, char const* prefix);
}
