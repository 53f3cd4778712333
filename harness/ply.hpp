// reader for the saved files
#pragma once
#include <dirent.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
namespace mc {
struct Ply { bool ok=false; std::string err; size_t n=0; std::vector<size_t> counts; std::vector<std::string> names; std::map<std::string,std::vector<double>> col; bool has(const std::string& s) const { return col.count(s); } const std::vector<double>& operator[](const std::string& s){ return col[s]; } };
inline Ply parse_ply(const std::string& all){ Ply r; size_t pos=0; auto line=[&](std::string& l){ size_t e=all.find('\n',pos); if (e==std::string::npos) return false; l=all.substr(pos,e-pos); pos=e+1; return true; };
  std::string l; bool end=false; if (!line(l)||l!="ply"){ r.err="no ply header"; return r; }
  while (line(l)){ std::istringstream s(l); std::string a,b,c; s>>a>>b>>c; if (a=="element") r.n=std::stoul(c); else if (a=="comment"&&b=="count") r.counts.push_back(std::stoul(c)); else if (a=="property"){ if (r.col.count(c)){ r.err="property "+c+" twice"; return r; } r.names.push_back(c); r.col[c]; } else if (a=="end_header"){ end=true; break; } }
  if (!end){ r.err="header truncated"; return r; }
  if (all.size()-pos != r.n*r.names.size()*8){ r.err="data truncated: "+std::to_string(all.size()-pos)+" of "+std::to_string(r.n*r.names.size()*8)+" bytes"; return r; }
  for (size_t c : r.counts) if (c!=r.n){ r.err="columns of different length ("+std::to_string(c)+" and "+std::to_string(r.n)+")"; return r; }
  const double* d=(const double*)0; std::vector<double> buf((all.size()-pos)/8); memcpy(buf.data(),all.data()+pos,buf.size()*8); size_t k=0; (void)d; for (size_t i=0;i<r.n;i++) for (auto& nm : r.names) r.col[nm].push_back(buf[k++]);
  r.ok=true; return r; }
inline bool slurp(const std::string& f, std::string& out){ std::ifstream in(f,std::ios::binary); if(!in) return false; std::ostringstream o; o<<in.rdbuf(); out=o.str(); return true; }
inline Ply read_ply(const std::string& f){ std::string a; if(!slurp(f,a)){ Ply r; r.err="no file "+f; return r; } return parse_ply(a); }
inline std::vector<std::string> listdir(const std::string& d){ std::vector<std::string> r; if (DIR* p=opendir(d.c_str())){ while (dirent* e=readdir(p)){ std::string n=e->d_name; if(n!="."&&n!="..") r.push_back(n); } closedir(p); } std::sort(r.begin(),r.end()); return r; }
// remove a directory made by the harness under its scratch directory (depth 2)
inline void wipe(const std::string& d, int depth=3){ if (!depth || d.find("scratch")==std::string::npos) return; for (auto& n : listdir(d)){ std::string p=d+"/"+n; struct stat st; if (lstat(p.c_str(),&st)) continue; if (S_ISDIR(st.st_mode)) wipe(p,depth-1); else unlink(p.c_str()); } rmdir(d.c_str()); }
}
