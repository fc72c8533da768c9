// libstdc++ functions that exist only precompiled: same behaviour, compiled
// here with the pass so that symbolic characters flow through them.
#include <istream>
#include <string>
#include <streambuf>
namespace std {
typedef istream::int_type it_; typedef char_traits<char> ct_;
static inline bool sp_(int c){return c==' '||(c>=9&&c<=13);}
template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s){
  size_t ext=0; ios_base::iostate err=ios_base::goodbit; istream::sentry cerb(in,false);
  if(cerb){
    s.erase(); streamsize w=in.width(); size_t n=w>0?(size_t)w:s.max_size();
    int c=in.rdbuf()->sgetc();
    while(ext<n&&c!=-1&&!sp_(c)){ s.push_back((char)c); ++ext; c=in.rdbuf()->snextc(); }
    if(ext<n&&c==-1)err|=ios_base::eofbit;
    in.width(0);
  }
  if(!ext)err|=ios_base::failbit;
  if(err)in.setstate(err);
  return in;
}
template<> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d){
  size_t ext=0,n=s.max_size(); ios_base::iostate err=ios_base::goodbit; istream::sentry cerb(in,true);
  if(cerb){
    s.erase(); int id=(unsigned char)d; int c=in.rdbuf()->sgetc();
    while(ext<n&&c!=-1&&c!=id){ s.push_back((char)c); ++ext; c=in.rdbuf()->snextc(); }
    if(c==-1)err|=ios_base::eofbit;
    else if(c==id){++ext;in.rdbuf()->sbumpc();}
    else err|=ios_base::failbit;
  }
  if(!ext)err|=ios_base::failbit;
  if(err)in.setstate(err);
  return in;
}
}
