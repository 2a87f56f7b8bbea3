#pragma once
#include "internal.h"
namespace sim {
struct Ino { int id=0; char kind='f'; int parent=0; int nlink=1; int opens=0; bool dead=false; std::string target; int noaccess=0; int fs=0; int64_t mtime=0; std::vector<std::pair<std::string,int>> kids; std::vector<std::pair<uint64_t,std::string>> hist;
  int find(std::string const&n){ for(auto&k:kids) if(k.first==n) return k.second; return 0; }
  void add(std::string const&n,int i){ kids.push_back({n,i}); }
  void set(std::string const&n,int i){ for(auto&k:kids) if(k.first==n) k.second=i; }
  void del(std::string const&n){ for(auto i=kids.begin();i!=kids.end();++i) if(i->first==n){ kids.erase(i); return; } } };
enum Kind { D_FILE, D_EVENTFD, D_EPOLL, D_NOTIFY, D_PATH, D_DIR };
struct Desc; struct Notify;
struct EpItem { int fd; std::weak_ptr<Desc> d; uint32_t events; uint64_t data; bool armed=false; bool off=false; };
struct Watch { int ino; uint32_t mask; };
struct Notify { bool fan=false; int inst=0; Desc*desc=nullptr; std::deque<Rec> q; std::map<int,Watch> wd; int next_wd=1; std::map<int,uint64_t> marks; long lost=0; std::deque<std::string> raw; };
struct Desc { Kind kind=D_FILE; bool foreign=false; std::string name; bool nonblock=false; bool sem=false; uint64_t count=0; std::vector<EpItem> items; std::shared_ptr<Notify> n; int ino=0; std::pair<char*,size_t> poisoned{nullptr,0}; ~Desc(); };
extern std::map<int,Ino> inos; extern std::map<int,std::shared_ptr<Desc>> fds; extern std::vector<std::shared_ptr<Notify>> notifies; extern std::vector<std::string> reserr; extern std::vector<std::string> dir_open_paths;
int resolve(std::string const& path,bool follow,int* parent=nullptr,std::string* last=nullptr,int depth=0,std::string const& base="");
int alloc_fd(std::shared_ptr<Desc> d);
void arm_desc(Desc*); void ino_put(int);
long notify_read(Notify*n,char*buf,size_t cnt);
extern std::string stdin_buf; extern bool stdin_eof;
extern std::vector<Rec> delivered_; extern int ninst; extern std::vector<int> inst_thread; inline int new_inst(){ inst_thread.resize(ninst+1,-1); inst_thread[ninst]=self?self->id:-1; return ninst++; }
}
