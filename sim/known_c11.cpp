// Scripted history behind the known finding of C11: elements that are
// movable, assignable and not copyable, with moves that may throw (but never
// do here), are inserted until the segment grows.
#include <boost/poly_collection/any_collection.hpp>
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/exception.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <cstdio>

struct B{virtual ~B()=default;};
struct M:B
{
  M(int x):x{x}{}
  M(M&& o)noexcept(false):x{o.x}{}
  M& operator=(M&& o)noexcept(false){x=o.x;return *this;}
  int operator()(int)const{return x;}
  int x;
};

template<typename C> void go(const char* name)
{
  C c;
  int k=0;
  try{
    for(;k<20;++k)c.template emplace<M>(k);
  }
  catch(const boost::poly_collection::not_copy_constructible& e){
    bool kept=*e.pinfo==typeid(M)&&c.template size<M>()==(std::size_t)k;
    int q=0;
    for(auto i=c.template begin<M>();i!=c.template end<M>();++i,++q)
      if(i->x!=q)kept=false;
    std::printf("%s %s\n",name,kept?"growth-throws":"growth-throws-and-loses");
    return;
  }
  catch(...){
    std::printf("%s other-exception\n",name);
    return;
  }
  int q=0;
  for(auto i=c.template begin<M>();i!=c.template end<M>();++i,++q)
    if(i->x!=q)break;
  std::printf("%s %s\n",name,q==20?"ok":"wrong-contents");
}

int main()
{
  go<boost::base_collection<B>>("base_collection");
  go<boost::function_collection<int(int)>>("function_collection");
  using concept_=boost::mpl::vector<boost::type_erasure::typeid_<>,
    boost::type_erasure::relaxed>;
  go<boost::any_collection<concept_>>("any_collection");
}
