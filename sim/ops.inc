  /* Operations (included in World). */

  struct Ret
  {
    int kind=0; /* 0 none, 1 global, 2 local base */
    iterator g;
    lb_iterator l;
    void set(const iterator& x){kind=1;g=x;}
    void set(const lb_iterator& x){kind=2;l=x;}
    template<typename T> void set(const l_iterator<T>& x,type_<T>)
      {kind=2;l=lb_iterator{x};}
  };

  void check_ret(const Step& s,int i,int t,std::size_t pos,const Ret& r)
  {
    if(g_violation.set||!r.kind)return;
    C& x=*c[i];
    std::string w=std::string(op_name(s.op))+": ";
    if(r.kind==1){
      std::size_t k=gindex(i,t,pos),total=m[i].total();
      if(k>=total){
        if(!(r.g==x.end()))fail("ret",w+"returned iterator is not end()");
        return;
      }
      auto f=gpos(x,k);
      if(!(r.g==f)){fail("ret",w+"returned iterator is at the wrong position");
        return;}
      View v=view_of(*r.g),u=view_of(*f);
      if(!v.ok||v.addr!=u.addr){fail("ret",w+"returned iterator denotes "
        "another element");return;}
      /* and can be traversed from */
      auto it=r.g;std::size_t n=k;
      for(;it!=x.end();++it,++n)if(n>=total){fail("ret",
        w+"traversal from the returned iterator overruns");return;}
      if(n!=total)fail("ret",w+"traversal from the returned iterator misses "
        "elements");
    }
    else{
      auto d=r.l-x.begin(info_of(t));
      if(d!=(std::ptrdiff_t)pos)
        fail("ret",w+"returned local iterator is at offset "+
          std::to_string(d)+" instead of "+std::to_string(pos));
      else if(pos<m[i].seg[t].v.size()){
        View v=view_of(*r.l);
        if(!v.ok||v.addr!=obs[i].seg[t].addr[pos])
          fail("ret",w+"returned local iterator denotes another element");
      }
    }
  }

  int live_slot(u32 r)
  {
    int l[NS],n=0;
    for(int i=0;i<NS;++i)if(c[i])l[n++]=i;
    if(!n){make_slot(0,r);return 0;}
    return l[r%n];
  }
  int other_slot(int i,u32 r,bool nonempty)
  {
    int l[NS],n=0;
    for(int j=0;j<NS;++j)if(j!=i&&c[j]&&(!nonempty||m[j].total()))l[n++]=j;
    return n?l[r%n]:-1;
  }
  void make_slot(int i,u32 r)
  {
    c[i].emplace(alloc(r));
    m[i]=MColl{};m[i].alive=true;m[i].arena=alloc(r).ar->id;
    drop_cursors(i);
    observe(i);
  }
  void kill_slot(int i)
  {
    drop_cursors(i);
    {
      g_faults.mask=0;
      InOp in;
      c[i].reset();
    }
    m[i]=MColl{};
    obs[i]=Obs{};
  }

  /* ------------------------------------------------- single insertion */

  enum Src{S_EMPLACE,S_CREF,S_RREF,S_ICREF,S_IRREF,S_ACOPY,S_AICOPY,S_AEMPL,
    S_MID,S_ANY,S_FWD,S_DEF,S_N};

  template<typename T,typename... Args>
  void do_emplace(C& x,u32 pm,std::size_t pos,std::size_t hk,Ret& r,
    Args&&... args)
  {
    const C& cx=x;
    switch(pm){
      case 0:r.set(x.template emplace<T>(std::forward<Args>(args)...));break;
      case 1:r.set(x.template emplace_hint<T>(
        gpos(x,hk),std::forward<Args>(args)...));break;
      case 2:r.set(x.template emplace_pos<T>(
        x.begin(typeid(T))+(std::ptrdiff_t)pos,
        std::forward<Args>(args)...));break;
      case 3:r.set(x.template emplace_pos<T>(
        cx.begin(typeid(T))+(std::ptrdiff_t)pos,
        std::forward<Args>(args)...));break;
      case 4:r.set(x.emplace_pos(
        x.template begin<T>()+(std::ptrdiff_t)pos,
        std::forward<Args>(args)...),type_<T>{});break;
      default:r.set(x.emplace_pos(
        cx.template begin<T>()+(std::ptrdiff_t)pos,
        std::forward<Args>(args)...),type_<T>{});break;
    }
  }
  template<typename T,typename X>
  void do_insert(C& x,u32 pm,std::size_t pos,std::size_t hk,Ret& r,X&& v)
  {
    const C& cx=x;
    switch(pm){
      case 0:r.set(x.insert(std::forward<X>(v)));break;
      case 1:r.set(x.insert(const_iterator{gpos(x,hk)},std::forward<X>(v)));
        break;
      case 2:r.set(x.insert(x.begin(typeid(T))+(std::ptrdiff_t)pos,
        std::forward<X>(v)));break;
      case 3:r.set(x.insert(cx.begin(typeid(T))+(std::ptrdiff_t)pos,
        std::forward<X>(v)));break;
      case 4:r.set(x.insert(x.template begin<T>()+(std::ptrdiff_t)pos,
        std::forward<X>(v)),type_<T>{});break;
      default:r.set(x.insert(cx.template begin<T>()+(std::ptrdiff_t)pos,
        std::forward<X>(v)),type_<T>{});break;
    }
  }

  void op_insert(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    u32 src=s.p[2]%S_N,pm=s.p[3]%6;
    C& x=*c[i];
    int dj=-1;std::size_t didx=0;           /* donor */
    u32 id=fresh();

    if(src==S_ICREF||src==S_IRREF){
      dj=other_slot(i,s.p[5],true);
      if(dj<0)src=S_CREF;
      else gloc(dj,s.p[6]%m[dj].total(),t,didx);
    }
    else if(src==S_AICOPY){
      if(!m[i].total())src=S_EMPLACE;
      else gloc(i,s.p[6]%m[i].total(),t,didx);
    }
    else if(src==S_ACOPY||src==S_AEMPL){
      /* prefer a type with elements */
      for(int k=0;k<NT&&m[i].seg[t].v.empty();++k)
        t=pick_type(s.p[1]+k+1);
      if(m[i].seg[t].v.empty())src=S_EMPLACE;
      else didx=s.p[6]%m[i].seg[t].v.size();
    }
    else if(src==S_MID){
      if(SIM_KIND==0)t=7;else src=S_CREF;
    }
    else if(src==S_ANY){
      if(SIM_KIND!=2)src=S_RREF;
    }
    if(src==S_DEF)id=DEFAULT_ID;
    const MSeg& g=m[i].seg[t];
    std::size_t n=g.v.size(),pos=n,hk=0;
    if(pm>=2&&!g.reg)pm=0;
    if(pm==1){
      std::size_t tot=m[i].total();
      hk=s.p[4]%(tot+1);
      if(g.v.size()&&(s.p[4]>>20)%4) /* usually hint into the segment */
        hk=gindex(i,t,(s.p[4]>>4)%n);
      int ht;std::size_t hi_;
      if(gloc(i,hk,ht,hi_)&&ht==t)pos=hi_;
    }
    else if(pm>=2)pos=s.p[4]%(n+1);

    Exp e=expect_same();
    bool copying=src==S_CREF||src==S_ICREF||src==S_ACOPY||src==S_AICOPY;
    bool lookup=src==S_ICREF||src==S_IRREF||src==S_AICOPY||src==S_MID||
      src==S_ANY;
    if(src==S_MID&&(s.p[5]&1))copying=true;
    if(src==S_ANY){
      if(!tt(t).copyable){src=S_RREF;lookup=false;}
      else if(s.p[5]&1)copying=true;
    }
    if(lookup&&!g.reg){e.allow=1u<<O_UNREG;e.must_tag=t;}
    else{
      u32 a=0;
      if(copying&&!tt(t).copyable){a|=1u<<O_NOCOPY;e.must_tag=t;}
      if(g.reg&&n+1>obs[i].seg[t].maxs)a|=1u<<O_LENGTH;
      if(a)e.allow=a;
    }
    bool alias=src==S_ACOPY||src==S_AICOPY||src==S_AEMPL;
    if(alias)id=m[i].seg[t].v[didx];
    if(src==S_ICREF||src==S_IRREF)id=m[dj].seg[t].v[didx];

    e.post[i].seg[t].reg=true;
    if(pm<2&&(src==S_EMPLACE||src==S_AEMPL||src==S_FWD||src==S_DEF))
      e.post[i].seg[t].warm=true; /* looked up by type */
    e.post[i].seg[t].v.insert(e.post[i].seg[t].v.begin()+pos,id);
    if(src==S_IRREF)e.post[dj].seg[t].v[didx]=MOVED;
    all_stable();
    bool growth=!g.reg||n+1>obs[i].seg[t].cap;
    stable[i][t]=growth?0:pos;
    if(g_keep&&pos==n&&pm<2&&strong_end(t))e.keep=true;
    if(growth&&alias)++g_stats.alias_growth;
    e.work=4*(growth?n:n-pos)+12;
    if(tt(t).nothrow_move)e.copies=copying||alias||src==S_ANY?1:0;
    e.fr.target=1u<<i;
    e.fr.mayreg[i]=1u<<t;
    if(!(pos==n?strong_end(t):quiet_moves(t))){
      e.fr.basic[i]=1u<<t;e.fr.extra.push_back(id);
    }
    if(g.reg&&g.warm&&!growth&&s.fmask==(1u<<FK_ALLOC)&&
       !(foreign&&(lookup||alias)))e.nofail=true;
    if(src==S_IRREF){
      e.fr.cand[dj].push_back(m[dj]);
      if(s.fmask!=(1u<<FK_ALLOC)){
        MColl k=m[dj];k.seg[t].v[didx]=MOVED;e.fr.cand[dj].push_back(k);
      }
    }
    bool srcbad=false;
    Ret r;
    Outcome o;
    with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      switch(src){
        case S_EMPLACE:{
          Arg a{id};
          o=call(s,[&]{this->template do_emplace<T>(x,pm,pos,hk,r,a);});
          break;
        }
        case S_FWD:{
          FArg a{id};const FArg& ca=a;
          u32 f=s.p[7]%3;
          o=call(s,[&]{
            if(f==0)this->template do_emplace<T>(x,pm,pos,hk,r,std::move(a));
            else if(f==1)this->template do_emplace<T>(x,pm,pos,hk,r,a);
            else this->template do_emplace<T>(x,pm,pos,hk,r,ca);
          });
          if(o.k==O_OK&&a.cat!=(f==0?FA_RVAL:f==1?FA_LVAL:FA_CLVAL))
            fail("seq","emplace: the argument was not forwarded as given");
          break;
        }
        case S_DEF:
          o=call(s,[&]{this->template do_emplace<T>(x,pm,pos,hk,r);});
          break;
        case S_CREF:{
          T ext{Arg{id}};
          o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,
            static_cast<const T&>(ext));});
          if(ext.arg.id!=id)srcbad=true;
          break;
        }
        case S_RREF:{
          T ext{Arg{id}};
          o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,
            std::move(ext));});
          if(o.k!=O_OK&&s.fmask==(1u<<FK_ALLOC)&&ext.arg.id!=id)srcbad=true;
          break;
        }
        case S_ICREF:case S_IRREF:{
          auto it=gpos(*c[dj],gindex(dj,t,didx));
          if(src==S_ICREF){
            const iface_t& v=*it;
            o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,v);});
          }
          else{
            iface_t& v=*it;
            o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,
              std::move(v));});
          }
          break;
        }
        case S_ACOPY:{
          const T& v=x.template begin<T>()[(std::ptrdiff_t)didx];
          o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,v);});
          break;
        }
        case S_AICOPY:{
          const iface_t& v=*gpos(x,gindex(i,t,didx));
          o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,v);});
          break;
        }
        case S_AEMPL:{
          const T& v=x.template begin<T>()[(std::ptrdiff_t)didx];
          o=call(s,[&]{this->template do_emplace<T>(x,pm,pos,hk,r,v.arg);});
          break;
        }
#if SIM_KIND==0
        case S_MID:{
          E7 ext{Arg{id}};E1& v=ext;
          if(copying)o=call(s,[&]{this->template do_insert<E7>(x,pm,pos,hk,r,
            static_cast<const E1&>(v));});
          else o=call(s,[&]{this->template do_insert<E7>(x,pm,pos,hk,r,
            std::move(v));});
          break;
        }
#endif
#if SIM_KIND==2
        case S_ANY:{
          if constexpr(tt(tag_of<T>::value).copyable){
            T tmp{Arg{id}};
            owning_any_t ext{tmp};
            if(copying)o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,
              static_cast<const owning_any_t&>(ext));});
            else o=call(s,[&]{this->template do_insert<T>(x,pm,pos,hk,r,
              std::move(ext));});
          }
          break;
        }
#endif
        default:break;
      }
    });
    if(srcbad)fail(o.k==O_OK?"seq":"strong","insert/emplace: the source "
      "object was changed");
    settle(s,o,e);
    if(o.k==O_OK)check_ret(s,i,t,pos,r);
  }

  /* -------------------------------------------------- range insertion */

  template<typename T,typename It>
  void do_range(C& x,u32 pm,std::size_t pos,std::size_t hk,Ret& r,It f,It l)
  {
    const C& cx=x;
    switch(pm){
      case 0:x.insert(f,l);break;
      case 1:x.insert(const_iterator{gpos(x,hk)},f,l);break;
      case 2:r.set(x.insert(cx.begin(typeid(T))+(std::ptrdiff_t)pos,f,l));
        break;
      case 3:r.set(x.insert(x.template begin<T>()+(std::ptrdiff_t)pos,f,l),
        type_<T>{});break;
      default:r.set(x.insert(cx.template begin<T>()+(std::ptrdiff_t)pos,f,l),
        type_<T>{});break;
    }
  }

  void op_range(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    u32 src=s.p[2]%8,pm=s.p[3]%5;
    std::size_t cnt=s.p[5]%6;
    if((s.p[5]>>16)%8==0)cnt=0;
    else if((cfg.grow&G_BULK)&&(s.p[5]>>20)%4==0)cnt=(s.p[5]>>4)%200;
    else if((cfg.grow&G_MID)&&(s.p[5]>>20)%4==0)cnt=(s.p[5]>>4)%30;
    C& x=*c[i];
    int dj=-1;std::size_t da=0,db=0;
    struct Item{int t;u32 id;};
    std::vector<Item> items;
    std::vector<const iface_t*> ptrs;
    bool autoreg=true,move=false;

    if(src>=2&&src<=5){
      dj=other_slot(i,s.p[6],true);
      if(dj<0)src=0;
    }
    if(src==2||src==3){
      std::size_t tot=m[dj].total();
      da=s.p[7]%(tot+1);
      std::size_t len=(s.p[7]>>8)%7;
      if(!cfg.maxcount&&(s.p[7]>>16)%3==0)len=tot;
      db=std::min(tot,da+len);
      if(pm>=2)src=4;
    }
    if(src==4||src==5){
      int l[NT],n=0;
      for(int u=0;u<NT;++u)if(m[dj].seg[u].v.size())l[n++]=u;
      t=l[s.p[1]%n];
      std::size_t sz=m[dj].seg[t].v.size();
      da=s.p[7]%(sz+1);
      db=std::min(sz,da+(s.p[7]>>8)%(cfg.grow&G_BULK?150:cfg.grow&G_MID?30:6));
      for(auto k=da;k<db;++k)items.push_back({t,m[dj].seg[t].v[k]});
    }
    else if(src==2||src==3){
      for(auto k=da;k<db;++k){
        int u=0;std::size_t q=0;gloc(dj,k,u,q);
        items.push_back({u,m[dj].seg[u].v[q]});
      }
    }
    if(src==6&&(pm<3||!m[i].seg[t].reg))src=7; /* Arg ranges: typed pos only*/
    if(src==7){move=true;if(pm>=2)pm%=2;}
    if(src==0||src==1||src==6||src==7)
      for(std::size_t k=0;k<cnt;++k)items.push_back({t,fresh()});
    if(src==6&&t==0&&(s.p[6]>>4)%6>=4)for(auto& it:items)it.id^=XCONV;
    if(src==2)autoreg=false;
    if(pm>=2&&!m[i].seg[t].reg)pm=0;
    if(src==6&&pm==0)return;

    /* positions */
    const MSeg& g=m[i].seg[t];
    std::size_t n=g.v.size(),pos=n,hk=0;
    int ht=-1;std::size_t hidx=0;
    if(pm==1){
      hk=s.p[4]%(m[i].total()+1);
      if(n&&(s.p[4]>>20)%4)hk=gindex(i,t,(s.p[4]>>4)%n);
      if(!gloc(i,hk,ht,hidx))ht=-1;
    }
    else if(pm>=2){pos=s.p[4]%(n+1);ht=t;hidx=pos;}

    Exp e=expect_same();
    std::size_t add[NT]={};
    {
      MColl k=m[i];
      std::vector<MColl>& cand=e.fr.cand[i];
      cand.push_back(k);
      std::size_t h=hidx;
      for(auto& it:items){
        MSeg& q=k.seg[it.t];
        if(!q.reg){
          if(!autoreg){e.allow=1u<<O_UNREG;e.must_tag=it.t;break;}
          q.reg=true;
        }
        u32 a=0;
        if(src!=6&&!move&&!tt(it.t).copyable)
          {a|=1u<<O_NOCOPY;e.must_tag=it.t;}
        if(m[i].seg[it.t].reg&&q.v.size()+1>obs[i].seg[it.t].maxs)
          a|=1u<<O_LENGTH;
        if(a){e.allow=a;break;}
        if(it.t==ht)q.v.insert(q.v.begin()+h++,it.id);
        else q.v.push_back(it.id);
        ++add[it.t];
        cand.push_back(k);
        e.fr.extra.push_back(it.id);
      }
      /* length_error may be raised before a not_copy_constructible (and
       * vice versa) by all-at-once implementations */
      if(!(e.allow&(1u<<O_OK))&&m[i].seg[t].reg&&
         n+items.size()>obs[i].seg[t].maxs&&src!=2&&src!=3)
        e.allow|=1u<<O_LENGTH;
      e.post[i]=k;
    }
    all_stable();
    for(int u=0;u<NT;++u){
      std::size_t w=0;
      for(auto& it:items)if(it.t==u)++w;
      if(!w)continue;
      std::size_t sz=m[i].seg[u].v.size();
      bool growth=!m[i].seg[u].reg||sz+w>obs[i].seg[u].cap;
      stable[i][u]=growth?0:(u==ht?hidx:sz);
      e.fr.mayreg[i]|=1u<<u;
      bool end=u!=ht||hidx==sz;
      /* element-by-element forms keep a prefix; vector ranges do not */
      bool seq=pm==2||(src>=2&&src<=5&&pm<2);
      if(!(seq&&(end?strong_end(u):quiet_moves(u))))e.fr.basic[i]|=1u<<u;
    }
    e.fr.target=1u<<i;
    if(s.fmask==(1u<<FK_ALLOC)&&src!=1&&src!=6){
      bool fits=true;
      for(auto& it:items){
        const MSeg& q=m[i].seg[it.t];
        std::size_t w=0;
        for(auto& jt:items)if(jt.t==it.t)++w;
        if(!q.reg||!q.warm||foreign||q.v.size()+w>obs[i].seg[it.t].cap)
          fits=false;
      }
      if(fits)e.nofail=true;
    }
    Ret r;
    Outcome o;
    with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      switch(src){
        case 0:case 1:case 7:{
          std::vector<T> ext;ext.reserve(items.size()+1);
          for(auto& it:items)ext.emplace_back(Arg{it.id});
          const T* b=ext.data();const T* l=b+items.size();
          if(src==7){
            T* bb=ext.data();
            auto f=std::make_move_iterator(bb),
                 la=std::make_move_iterator(bb+items.size());
            o=call(s,[&]{
              if(pm==0)x.insert(f,la);
              else x.insert(const_iterator{gpos(x,hk)},f,la);});
          }
          else if(src==1){
            InIt<T> f;f.p=b;InIt<T> la;la.p=l;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          else{
            FwIt<T> f;f.p=b;FwIt<T> la;la.p=l;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          if(src!=7)for(std::size_t k=0;k<items.size();++k)
            if(ext[k].arg.id!=items[k].id)
              fail("seq","range-insert: a source element was changed");
          break;
        }
        case 2:{
          for(auto k=da;k<db;++k)ptrs.push_back(&*gpos(*c[dj],k));
          IfIt f;f.p=ptrs.data();IfIt la;la.p=ptrs.data()+ptrs.size();
          o=call(s,[&]{
            if(pm==0)x.insert(f,la);
            else x.insert(const_iterator{gpos(x,hk)},f,la);});
          break;
        }
        case 3:{
          auto f=gpos(*c[dj],da),la=gpos(*c[dj],db);
          if(s.p[6]&0x10000){
            const_iterator cf=f,cl=la;
            o=call(s,[&]{
              if(pm==0)x.insert(cf,cl);
              else x.insert(const_iterator{gpos(x,hk)},cf,cl);});
          }
          else o=call(s,[&]{
              if(pm==0)x.insert(f,la);
              else x.insert(const_iterator{gpos(x,hk)},f,la);});
          break;
        }
        case 4:{
          C& d=*c[dj];const C& cd=d;
          if(s.p[6]&0x10000){
            auto b=cd.begin(typeid(T));
            auto f=b+(std::ptrdiff_t)da,la=b+(std::ptrdiff_t)db;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          else{
            auto b=d.begin(typeid(T));
            auto f=b+(std::ptrdiff_t)da,la=b+(std::ptrdiff_t)db;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          break;
        }
        case 5:{
          C& d=*c[dj];const C& cd=d;
          if(s.p[6]&0x10000){
            auto b=cd.template begin<T>();
            auto f=b+(std::ptrdiff_t)da,la=b+(std::ptrdiff_t)db;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          else{
            auto b=d.template begin<T>();
            auto f=b+(std::ptrdiff_t)da,la=b+(std::ptrdiff_t)db;
            o=call(s,[&]{this->template do_range<T>(x,pm,pos,hk,r,f,la);});
          }
          break;
        }
        case 6:{
          u32 f=(s.p[6]>>4)%6;
          auto at=[&](auto fi,auto la){
            const C& cx=x;
            o=this->call(s,[&]{
              if(pm==3)r.set(x.insert(
                x.template begin<T>()+(std::ptrdiff_t)pos,fi,la),type_<T>{});
              else r.set(x.insert(
                cx.template begin<T>()+(std::ptrdiff_t)pos,fi,la),
                type_<T>{});
            });
          };
          if(f>=4){
            if constexpr(tag_of<T>::value==0){ /* E0 is made from E1 */
              std::vector<E1> ext;ext.reserve(items.size()+1);
              for(auto& it:items)ext.emplace_back(Arg{it.id^XCONV});
              InIt<E1> fi;fi.p=ext.data();
              InIt<E1> la;la.p=fi.p+ext.size();
              at(fi,la);
              for(std::size_t k=0;k<ext.size();++k)
                if(ext[k].arg.id!=(items[k].id^XCONV))
                  fail("seq","range-insert: a source element was changed");
              break;
            }
            f=0;
          }
          if(f==0){
            std::vector<Arg> ext;
            for(auto& it:items)ext.push_back(Arg{it.id});
            InIt<Arg> fi;fi.p=ext.data();InIt<Arg> la;la.p=fi.p+ext.size();
            at(fi,la);
          }
          else{
            std::vector<FArg> ext;
            for(auto& it:items)ext.push_back(FArg{it.id});
            FArg* b=ext.data();FArg* l=b+ext.size();
            if(f==1)at(std::make_move_iterator(b),std::make_move_iterator(l));
            else if(f==2)at(b,l);
            else at((const FArg*)b,(const FArg*)l);
            if(o.k==O_OK)for(auto& a:ext)
              if(a.cat!=(f==1?FA_RVAL:f==2?FA_LVAL:FA_CLVAL))
                fail("seq","range-insert: a source value was not forwarded "
                  "as given");
          }
          break;
        }
        default:break;
      }
    });
    settle(s,o,e);
    if(o.k==O_OK&&pm>=2)check_ret(s,i,t,pos,r);
  }

  /* ------------------------------------------------------------- erase */

  void op_erase(const Step& s)
  {
    int i=live_slot(s.p[0]);
    std::size_t tot=m[i].total();
    if(!tot){++g_stats.ops_skipped;return;}
    C& x=*c[i];const C& cx=x;
    std::size_t k=s.p[1]%tot;
    int t=0;std::size_t pos=0;
    gloc(i,k,t,pos);
    if((s.p[2]>>8)%3==0){ /* favour first / last of the segment */
      pos=(s.p[2]>>12)&1?m[i].seg[t].v.size()-1:0;
      k=gindex(i,t,pos);
    }
    u32 pm=s.p[2]%6;
    Exp e=expect_same();
    auto& v=e.post[i].seg[t].v;
    v.erase(v.begin()+pos);
    all_stable();
    stable[i][t]=pos;
    e.work=4*(v.size()-pos)+4;
    e.copies=0;
    e.fr.target=1u<<i;
    if(quiet_moves(t))e.nofail=true;else e.fr.basic[i]=1u<<t;
    if(!(s.fmask&(1u<<FK_MASSIGN)))e.nofail=true;
    Ret r;
    Outcome o;
    with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      o=call(s,[&]{
        auto p=(std::ptrdiff_t)pos;
        switch(pm){
          case 0:r.set(x.erase(gpos(x,k)));break;
          case 1:{const_iterator q=gpos(x,k);r.set(x.erase(q));break;}
          case 2:r.set(x.erase(x.begin(typeid(T))+p));break;
          case 3:r.set(x.erase(cx.begin(typeid(T))+p));break;
          case 4:r.set(x.erase(x.template begin<T>()+p),type_<T>{});break;
          default:r.set(x.erase(cx.template begin<T>()+p),type_<T>{});break;
        }
      });
    });
    settle(s,o,e);
    if(o.k==O_OK)check_ret(s,i,t,pos,r);
  }

  void op_erase_range(const Step& s)
  {
    int i=live_slot(s.p[0]);
    std::size_t tot=m[i].total();
    C& x=*c[i];const C& cx=x;
    u32 pm=s.p[1]%6;
    Exp e=expect_same();
    all_stable();
    e.fr.target=1u<<i;
    Ret r;Outcome o;
    if(pm<2){
      std::size_t a=s.p[2]%(tot+1),b=a;
      if((s.p[4]>>3)%8==0){a=0;b=tot;}
      else b=a+s.p[3]%(tot-a+1);
      bool thr=false;
      int rt=-1;std::size_t rpos=0;
      bool has=gloc(i,b,rt,rpos);
      std::size_t gone=0;
      for(std::size_t k=b;k-->a;){
        int t=0;std::size_t p=0;
        gloc(i,k,t,p);
        auto& v=e.post[i].seg[t].v;
        v.erase(v.begin()+p);
        if(has&&t==rt)++gone;
        stable[i][t]=std::min(stable[i][t],p);
        if(!quiet_moves(t)){e.fr.basic[i]|=1u<<t;thr=true;}
      }
      if(thr)for(int t=0;t<NT;++t) /* whole ranges may be partially erased */
        if(e.post[i].seg[t].v.size()!=m[i].seg[t].v.size())
          e.fr.basic[i]|=1u<<t;
      if(!thr||!(s.fmask&(1u<<FK_MASSIGN)))e.nofail=true;
      e.work=4;
      for(int t=0;t<NT;++t){
        auto& z=e.post[i].seg[t].v;
        if(z.size()!=m[i].seg[t].v.size())
          e.work+=4*(z.size()-stable[i][t])+4;
      }
      o=call(s,[&]{
        if(pm==0)r.set(x.erase(gpos(x,a),gpos(x,b)));
        else{
          const_iterator f=gpos(x,a),l=gpos(x,b);
          r.set(x.erase(f,l));
        }
      });
      settle(s,o,e);
      if(o.k==O_OK&&!g_violation.set){
        if(!has){
          if(!(r.g==x.end()))fail("ret","erase-range: did not return end()");
        }
        else{
          check_ret(s,i,rt,rpos-gone,r);
        }
      }
      return;
    }
    /* local ranges */
    int l[NM],n=0;
    for(int t=0;t<NM;++t)if(m[i].seg[t].reg)l[n++]=t;
    if(!n){++g_stats.ops_skipped;return;}
    int t=l[s.p[2]%n];
    std::size_t sz=m[i].seg[t].v.size();
    std::size_t a=s.p[3]%(sz+1),b=a+s.p[4]%(sz-a+1);
    auto& v=e.post[i].seg[t].v;
    v.erase(v.begin()+a,v.begin()+b);
    stable[i][t]=a==b?ALL:a;
    e.work=4*(v.size()-a)+4;
    e.copies=0;
    if(quiet_moves(t))e.nofail=true;else e.fr.basic[i]=1u<<t;
    if(!(s.fmask&(1u<<FK_MASSIGN)))e.nofail=true;
    with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      o=call(s,[&]{
        auto pa=(std::ptrdiff_t)a,pb=(std::ptrdiff_t)b;
        switch(pm){
          case 2:{auto q=x.begin(typeid(T));r.set(x.erase(q+pa,q+pb));break;}
          case 3:{auto q=cx.begin(typeid(T));r.set(x.erase(q+pa,q+pb));break;}
          case 4:{auto q=x.template begin<T>();
            r.set(x.erase(q+pa,q+pb),type_<T>{});break;}
          default:{auto q=cx.template begin<T>();
            r.set(x.erase(q+pa,q+pb),type_<T>{});break;}
        }
      });
    });
    settle(s,o,e);
    if(o.k==O_OK)check_ret(s,i,t,a,r);
  }

  /* ------------------------------------- construction, assignment, swap */

  u32 nocopy_mask(const MColl& k)const
  {
    u32 r=0;
    for(int t=0;t<NT;++t)if(k.seg[t].v.size()&&!tt(t).copyable)r|=1u<<t;
    return r;
  }
  void free_slot(int i){if(c[i])kill_slot(i);}
  static void chill(MColl& k){for(auto& q:k.seg)q.warm=false;}

  struct ElemMark
  {
    ElemStats b=g_es;
    u64 copies()const{return g_es.copy-b.copy+g_es.cassign-b.cassign;}
    u64 any()const
    {return copies()+g_es.move-b.move+g_es.massign-b.massign+g_es.ctor-b.ctor+
       g_es.dtor-b.dtor;}
  };

  void check_transfer(const char* what,const Obs& from,const Obs& to)
  {
    if(g_violation.set)return;
    for(int t=0;t<NT;++t)if(from.seg[t].addr!=to.seg[t].addr)
      {fail("xfer",std::string(what)+": elements of T"+std::to_string(t)+
        " do not keep their addresses");return;}
  }
  void check_copies(const char* what,const ElemMark& k)
  {
    if(g_violation.set)return;
    if(k.copies())fail("xfer",std::string(what)+": copied elements");
  }

  void op_new(const Step& s)
  {
    int i=s.p[0]%NS;
    if(c[i]&&(s.p[2]%4)){++g_stats.ops_skipped;return;}
    free_slot(i);
    A al=alloc(s.p[1]);
    bool dflt=(s.p[3]%4)==0;
    Exp e=expect_same();
    e.post[i]=MColl{};e.post[i].alive=true;
    e.post[i].arena=dflt?0:al.ar->id;
    all_stable();
    Outcome o=call(s,[&]{if(dflt)c[i].emplace();else c[i].emplace(al);});
    settle(s,o,e);
  }
  void op_destroy(const Step& s)
  {
    int i=live_slot(s.p[0]);
    Exp e=expect_same();
    e.post[i]=MColl{};
    all_stable();
    kill_slot(i);
    settle(s,Outcome{},e);
  }
  void op_copyc(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=(i+1+s.p[1]%(NS-1))%NS;
    free_slot(j);
    const C& x=*c[i];
    A al=alloc(s.p[2]);
    bool ext=s.op==OP_COPYC_AL;
    Exp e=expect_same();
    e.post[j]=m[i];chill(e.post[j]);
    e.post[j].arena=ext?al.ar->id:g_arena[m[i].arena].soccc;
    if(u32 k=nocopy_mask(m[i])){e.allow=1u<<O_NOCOPY;e.must_mask=k;}
    e.fr.target=1u<<j;
    all_stable();
    e.work=2*m[i].total()+4;
    Obs pre=obs[i];
    Outcome o=call(s,[&]{if(ext)c[j].emplace(x,al);else c[j].emplace(x);});
    settle(s,o,e);
    if(!g_violation.set)check_transfer("copy source",pre,obs[i]);
    if(!g_violation.set&&o.k==O_OK)cross_eq(i,j,s.p[3]);
  }
  /* a fresh copy compares equal (when comparable) */
  void cross_eq(int i,int j,u32 r)
  {
    if(r&1)return;
    Step q;q.op=OP_EQ;q.p[0]=i;q.p[1]=j;q.p[2]=0x10000;
    eq_pair(q,i,j);
  }
  void op_movec(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=(i+1+s.p[1]%(NS-1))%NS;
    free_slot(j);
    C& x=*c[i];
    A al=alloc(s.p[2]);
    bool ext=s.op==OP_MOVEC_AL;
    bool transfer=!ext||al.ar->id==m[i].arena;
    if(!transfer)++g_stats.unequal_moves;
    Exp e=expect_same();
    e.post[j]=m[i];
    if(!transfer)chill(e.post[j]);
    if(ext)e.post[j].arena=al.ar->id;
    e.adoptm=1u<<i;
    e.fr.target=(1u<<i)|(1u<<j);
    e.fr.anyreg[i]=true;e.fr.basic[i]=ALLT;
    all_stable();
    drop_cursors(i);
    e.work=transfer?0:2*m[i].total()+4;
    Obs pre=obs[i];
    u32 ar=m[i].arena;
    ElemMark k;
    Outcome o=call(s,[&]{
      if(ext)c[j].emplace(std::move(x),al);else c[j].emplace(std::move(x));});
    if(o.k==O_OK){
      if(transfer&&k.any())fail("xfer","move-construct: element operations "
        "performed");
      check_copies("move-construct",k);
    }
    settle(s,o,e);
    if(!g_violation.set&&obs[i].arena!=ar)
      fail("prop","move-construct: allocator of the source changed");
    if(o.k==O_OK&&transfer)check_transfer("move-construct",pre,obs[j]);
  }
  void op_rangec(const Step& s)
  {
    int j=s.p[1]%NS;
    int t=pick_type(s.p[2]);
    int dj=other_slot(j,s.p[0],true);
    free_slot(j);
    A al=alloc(s.p[3]);
    bool from=dj>=0&&(s.p[4]%3);
    struct Item{int t;u32 id;};
    std::vector<Item> items;
    std::size_t da=0,db=0;
    if(from){
      std::size_t tot=m[dj].total();
      da=s.p[5]%(tot+1);db=std::min(tot,da+(s.p[5]>>8)%9);
      if((s.p[5]>>16)%3==0){da=0;db=tot;}
      for(auto k=da;k<db;++k){
        int u=0;std::size_t q=0;gloc(dj,k,u,q);
        items.push_back({u,m[dj].seg[u].v[q]});
      }
    }
    else for(std::size_t k=0;k<s.p[5]%6;++k)items.push_back({t,fresh()});
    Exp e=expect_same();
    e.post[j]=MColl{};e.post[j].alive=true;e.post[j].arena=al.ar->id;
    if((s.p[6]%4)==0)e.post[j].arena=0;
    for(auto& it:items){
      if(!tt(it.t).copyable){e.allow=1u<<O_NOCOPY;e.must_tag=it.t;break;}
      auto& q=e.post[j].seg[it.t];
      if(cfg.maxcount&&q.v.size()+1>(std::size_t)(cfg.maxcount-(SIM_KIND?1:0)))
        {e.allow=1u<<O_LENGTH;break;}
      q.reg=true;q.v.push_back(it.id);
    }
    if(cfg.maxcount&&!(e.allow&(1u<<O_OK)))
      e.allow|=(1u<<O_LENGTH);
    e.fr.target=1u<<j;
    all_stable();
    Outcome o;
    bool dflt=(s.p[6]%4)==0;
    if(from){
      auto f=gpos(*c[dj],da),l=gpos(*c[dj],db);
      o=call(s,[&]{if(dflt)c[j].emplace(f,l);else c[j].emplace(f,l,al);});
      settle(s,o,e);
    }
    else with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      {
        std::vector<T> ext;ext.reserve(items.size()+1);
        for(auto& it:items)ext.emplace_back(Arg{it.id});
        InIt<T> f;f.p=ext.data();InIt<T> l;l.p=f.p+items.size();
        o=call(s,[&]{if(dflt)c[j].emplace(f,l);else c[j].emplace(f,l,al);});
      }
      settle(s,o,e);
    });
  }
  void op_cassign(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=other_slot(i,s.p[1],false);
    if(j<0){++g_stats.ops_skipped;return;}
    Exp e=expect_same();
    bool prop=Pol::pocca::value;
    u32 ar=prop?m[j].arena:m[i].arena;
    e.post[i]=m[j];e.post[i].arena=ar;chill(e.post[i]);
    if(u32 k=nocopy_mask(m[j])){e.allow=1u<<O_NOCOPY;e.must_mask=k;}
    e.fr.target=1u<<i;e.fr.basic[i]=ALLT;e.fr.anyreg[i]=true;
    all_stable();
    drop_cursors(i);
    e.work=3*m[j].total()+m[i].total()+4;
    Obs pre=obs[j];
    u32 a0=m[i].arena;
    Outcome o=call(s,[&]{*c[i]=static_cast<const C&>(*c[j]);});
    settle(s,o,e);
    if(g_violation.set)return;
    if(o.k!=O_OK&&obs[i].arena!=a0&&obs[i].arena!=ar)
      fail("prop","failed copy-assign: allocator from nowhere");
    check_transfer("copy-assign source",pre,obs[j]);
    if(!g_violation.set&&o.k==O_OK)cross_eq(i,j,s.p[3]);
  }
  void op_massign(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=other_slot(i,s.p[1],false);
    if(j<0){++g_stats.ops_skipped;return;}
    Exp e=expect_same();
    bool prop=Pol::pocma::value;
    u32 ar=prop?m[j].arena:m[i].arena;
    bool transfer=prop||m[i].arena==m[j].arena;
    if(!transfer)++g_stats.unequal_moves;
    e.post[i]=m[j];e.post[i].arena=ar;
    if(!transfer)chill(e.post[i]);
    e.adoptm=1u<<j;
    e.fr.target=(1u<<i)|(1u<<j);
    e.fr.basic[i]=e.fr.basic[j]=ALLT;e.fr.anyreg[i]=e.fr.anyreg[j]=true;
    all_stable();
    drop_cursors(i);drop_cursors(j);
    Obs pre=obs[j];
    std::size_t had=m[i].total();
    e.work=transfer?0:3*m[j].total()+had+4;
    u32 ai=m[i].arena,aj=m[j].arena;
    ElemMark k;
    Outcome o=call(s,[&]{*c[i]=std::move(*c[j]);});
    if(o.k==O_OK){
      check_copies("move-assign",k);
      if(transfer&&k.any()>had)
        fail("xfer","move-assign: element operations performed though the "
          "allocators permit a transfer");
    }
    settle(s,o,e);
    if(g_violation.set)return;
    if(obs[j].arena!=aj)
      fail("prop","move-assign: allocator of the source changed");
    if(o.k!=O_OK&&obs[i].arena!=ai&&obs[i].arena!=aj)
      fail("prop","failed move-assign: allocator from nowhere");
    if(o.k==O_OK&&transfer)check_transfer("move-assign",pre,obs[i]);
  }
  void op_swap(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=other_slot(i,s.p[1],false);
    if(j<0){++g_stats.ops_skipped;return;}
    if(!Pol::pocs::value&&m[i].arena!=m[j].arena)
      {++g_stats.ops_skipped;return;}
    Exp e=expect_same();
    std::swap(e.post[i],e.post[j]);
    e.nofail=true;
    all_stable();
    Obs pi=obs[i],pj=obs[j];
    /* held positions follow their elements; end() stays with the object */
    std::vector<int> mv;
    for(int q=0;q<NC;++q)if(cur[q].valid&&!cur[q].global_end){
      if(cur[q].slot==i)cur[q].slot=j;
      else if(cur[q].slot==j)cur[q].slot=i;
    }
    for(auto& q:cur)if(q.valid&&q.global_end&&(q.slot==i||q.slot==j))
      q.valid=false; /* which collection's end() it is, is unspecified */
    ElemMark k;
    Outcome o=call(s,[&]{
      if(s.p[2]&1)c[i]->swap(*c[j]);
      else{using std::swap;swap(*c[i],*c[j]);}
    });
    if(k.any())fail("xfer","swap: element operations performed");
    settle(s,o,e);
    check_transfer("swap",pi,obs[j]);
    check_transfer("swap",pj,obs[i]);
  }
  void op_selfassign(const Step& s)
  {
    int i=live_slot(s.p[0]);
    Exp e=expect_same();
    e.nofail=true;
    all_stable();
    Obs pre=obs[i];
    C& x=*c[i];C& y=*c[i];
    Outcome o=call(s,[&]{
      switch(s.p[1]%3){
        case 0:x=static_cast<const C&>(y);break;
        case 1:x.swap(y);break;
        default:x=std::move(y);break;
      }
    });
    settle(s,o,e);
    check_transfer("self-assign",pre,obs[i]);
  }

  /* ------------------------------------------------ capacity, registration */

  void op_reg(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    Outcome o;
    if(s.p[2]%3==0){
      int u=pick_type(s.p[3]);
      e.post[i].seg[t].reg=e.post[i].seg[u].reg=true;
      e.fr.mayreg[i]=(1u<<t)|(1u<<u);
      with_type(t,[&](auto a){
        using T=typename decltype(a)::type;
        /* pair with a fixed second type to bound instantiations */
        with_type(u,[&](auto b){
          using U=typename decltype(b)::type;
          o=this->call(s,[&]{x.template register_types<T>();
            x.template register_types<U>();});
        });
      });
    }
    else if(s.p[2]%3==1&&(cfg.types&0x3f)==0x3f){
      for(int u=0;u<6;++u)e.post[i].seg[u].reg=true;
      e.fr.mayreg[i]=0x3f;
      o=call(s,[&]{x.template register_types<E0,E1,E2,E3,E4,E5>();});
    }
    else{
      e.post[i].seg[t].reg=true;
      e.fr.mayreg[i]=1u<<t;
      with_type(t,[&](auto a){
        using T=typename decltype(a)::type;
        o=this->call(s,[&]{x.template register_types<T>();});
      });
    }
    if(o.k==O_OK)for(int u=0;u<NT;++u)
      if(e.fr.mayreg[i]&(1u<<u))e.post[i].seg[u].warm=true;
    settle(s,o,e);
  }

  /* many types: the map of segments goes through its rehashes */
  template<std::size_t... I>
  void reg_all_fillers(C& x,std::index_sequence<I...>)
  {x.template register_types<elem_t<NM+(int)I>...>();}
  void op_wide(const Step& s)
  {
    if(!NF||!(cfg.grow&G_WIDE)){++g_stats.ops_skipped;return;}
    int i=live_slot(s.p[0]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    Outcome o;
    u32 l[NF?NF:1],n=0;
    if(s.p[1]%8==0)for(n=0;n<(u32)NF;++n)l[n]=n;
    else{
      n=1+s.p[2]%4;
      for(u32 k=0;k<n;++k)l[k]=(s.p[3]>>(6*k))%(NF?NF:1);
    }
    for(u32 k=0;k<n;++k){
      e.post[i].seg[NM+l[k]].reg=true;
      e.fr.mayreg[i]|=1u<<(NM+l[k]);
    }
    o=call(s,[&]{
      if(n==(u32)NF)reg_all_fillers(x,std::make_index_sequence<NF>{});
      else for(u32 k=0;k<n;++k)with_filler_(x,NM+(int)l[k],s.p[4]);
    });
    if(o.k==O_OK)for(u32 k=0;k<n;++k)e.post[i].seg[NM+l[k]].warm=true;
    settle(s,o,e);
  }
  void with_filler_(C& x,int t,u32 how)
  {
    auto f=[&](auto a){
      using T=typename decltype(a)::type;
      if(how%3==0)x.template reserve<T>(how%5);
      else x.template register_types<T>();
    };
    with_filler<NM>(t,f);
  }

  /* private collections over other interfaces; ours are not involved */
  void op_side(const Step& s)
  {
    Exp e=expect_same();
    all_stable();
    auto blocks=g_heap.live.size(),objs=g_acc.by_alloc.size();
    g_stats.side+=run_probe(s);
    if(!g_violation.set&&(g_heap.live.size()!=blocks||
       g_acc.by_alloc.size()!=objs))
      fail("leak","side scenario: memory or elements left behind");
    if(g_violation.set)return;
    settle(s,Outcome{},e);
  }

  void op_reserve(const Step& s)
  {
    int i=live_slot(s.p[0]);
    C& x=*c[i];
    std::size_t n=s.p[1]%13;
    if(s.p[2]%8==0)n=s.p[1]%40;
    if((cfg.grow&G_BULK)&&(s.p[2]>>8)%4==0)n=s.p[1]%1200;
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    bool bad=false;
    for(int t=0;t<NT;++t)if(m[i].seg[t].reg){
      if(n>obs[i].seg[t].maxs)bad=true;
      if(n>obs[i].seg[t].cap)stable[i][t]=0;
      if(!strong_end(t)&&n>obs[i].seg[t].cap)e.fr.basic[i]|=1u<<t;
    }
    if(bad)e.allow=1u<<O_LENGTH;
    e.work=2*m[i].total();
    ElemMark k;
    Outcome o=call(s,[&]{x.reserve(n);});
    settle(s,o,e);
    if(g_violation.set)return;
    if(o.k==O_OK)for(int t=0;t<NT;++t)
      if(m[i].seg[t].reg&&obs[i].seg[t].cap<n)
        {fail("cap","reserve(n): capacity below n");return;}
  }
  void op_reserve_t(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    std::size_t n=s.p[2]%17;
    if(s.p[3]%8==0)n=s.p[2]%60;
    if((cfg.grow&G_BULK)&&(s.p[3]>>8)%3==0)n=s.p[2]%1500;
    bool byinfo=s.p[4]%3==0;
    do_reserve_t(s,i,t,n,byinfo);
  }
  void do_reserve_t(const Step& s,int i,int t,std::size_t n,bool byinfo)
  {
    C& x=*c[i];
    const MSeg& g=m[i].seg[t];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    if(!byinfo){e.post[i].seg[t].reg=true;e.post[i].seg[t].warm=true;
      e.fr.mayreg[i]=1u<<t;}
    bool grow=!g.reg||n>obs[i].seg[t].cap;
    if(grow)stable[i][t]=0;
    if(byinfo&&!g.reg){e.allow=1u<<O_UNREG;e.must_tag=t;}
    else if(g.reg?n>obs[i].seg[t].maxs:
      cfg.maxcount&&n>cfg.maxcount-(SIM_KIND?1:0))e.allow=1u<<O_LENGTH;
    if(!strong_end(t)&&grow)e.fr.basic[i]|=1u<<t;
    if(g.reg&&g.warm&&!grow)e.nofail=true;
    ElemMark k;
    Outcome o;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      o=this->call(s,[&]{
        if(byinfo)x.reserve(this->info(t),n);
        else x.template reserve<T>(n);});
    });
    if(o.k==O_OK&&tt(t).nothrow_move&&k.copies())
      fail("xfer","reserve<T>: copied elements");
    settle(s,o,e);
    if(g_violation.set)return;
    if(o.k==O_OK&&obs[i].seg[t].cap<n)
      fail("cap","reserve<T>(n): capacity "+
        std::to_string(obs[i].seg[t].cap)+" below "+std::to_string(n));
  }
  void op_shrink(const Step& s)
  {
    int i=live_slot(s.p[0]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    for(int t=0;t<NT;++t)if(m[i].seg[t].reg){
      stable[i][t]=0;
      if(!strong_end(t))e.fr.basic[i]|=1u<<t;
    }
    Outcome o=call(s,[&]{x.shrink_to_fit();});
    settle(s,o,e);
  }
  void op_shrink_t(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    if(!m[i].seg[t].reg){e.allow=1u<<O_UNREG;e.must_tag=t;}
    else stable[i][t]=0;
    if(!strong_end(t))e.fr.basic[i]|=1u<<t;
    ElemMark k;
    Outcome o;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      o=this->call(s,[&]{
        if(s.p[2]&1)x.shrink_to_fit(this->info(t));
        else x.template shrink_to_fit<T>();});
    });
    if(o.k==O_OK&&tt(t).nothrow_move&&k.copies())
      fail("xfer","shrink_to_fit<T>: copied elements");
    settle(s,o,e);
  }
  void op_clear(const Step& s)
  {
    int i=live_slot(s.p[0]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;e.nofail=true;
    all_stable();
    for(int t=0;t<NT;++t){e.post[i].seg[t].v.clear();stable[i][t]=0;}
    Outcome o=call(s,[&]{x.clear();});
    settle(s,o,e);
  }
  void op_clear_t(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    C& x=*c[i];
    Exp e=expect_same();
    e.fr.target=1u<<i;
    bool byinfo=s.p[2]&1;
    if(!byinfo&&m[i].seg[t].warm)e.nofail=true;
    all_stable();
    if(!m[i].seg[t].reg){e.allow=1u<<O_UNREG;e.must_tag=t;e.nofail=false;}
    e.post[i].seg[t].v.clear();stable[i][t]=0;
    Outcome o;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      o=this->call(s,[&]{
        if(byinfo)x.clear(this->info(t));
        else x.template clear<T>();});
    });
    settle(s,o,e);
  }

  /* ------------------------------------------------------------ equality */

  void op_eq(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int j=other_slot(i,s.p[1],false);
    if(j<0||s.p[2]%16==0)j=i;
    eq_pair(s,i,j);
  }
  void eq_pair(const Step& s,int i,int j)
  {
    const C& x=*c[i];const C& y=*c[j];
    bool eq=true;u32 noeq=0;
    for(int t=0;t<NT;++t){
      auto& a=m[i].seg[t].v;auto& b=m[j].seg[t].v;
      if(a.size()==b.size()&&a.size()&&!tt(t).eq)noeq|=1u<<t;
      else if(a!=b)eq=false;
    }
    Exp e=expect_same();
    all_stable();
    if(noeq){
      e.allow=1u<<O_NOEQ;e.must_mask=noeq;
      if(!eq)e.allow|=1u<<O_OK;
    }
    bool r1=false,r2=false,r3=false;
    Outcome o;
    u32 kind=s.p[3]%4;
    e.work=0;e.eqwork=3*std::min(m[i].total(),m[j].total());
    o=call(s,[&]{
      if(kind!=1)r1=x==y;
      if(kind!=0)r2=!(x!=y);
      if(kind>=2)r3=y==x;
    });
    if(o.k==O_OK){
      bool bad=(kind!=1&&r1!=eq)||(kind!=0&&r2!=eq)||(kind>=2&&r3!=eq);
      if(noeq&&eq)bad=false; /* flagged by settle */
      if(bad)fail("eq","comparison gives "+std::to_string(kind==1?r2:r1)+
        ", reversed "+std::to_string(kind>=2?r3:r1)+", expected "+
        std::to_string(eq)+": "+show(m[i])+" vs "+show(m[j]));
    }
    settle(s,o,e);
  }

  /* ------------------------------------------------------------- mutation */

  bool foreign=false; /* elements built by another module exist(ed) */

  void op_mutate(const Step& s)
  {
    int i=live_slot(s.p[0]);
    std::size_t tot=m[i].total();
    if(!tot){++g_stats.ops_skipped;return;}
    C& x=*c[i];
    std::size_t k=s.p[1]%tot,pos=0;int t=0;
    gloc(i,k,t,pos);
    u32 id=fresh();
    Exp e=expect_same();
    e.post[i].seg[t].v[pos]=id;
    all_stable();
    Outcome o;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      auto p=(std::ptrdiff_t)pos;
      o=this->call(s,[&]{
        switch(s.p[2]%6){
          case 0:iface_call(*this->gpos(x,k),K_SET|id);break;
          case 1:x.template begin<T>()[p].arg.id=id;break;
          case 2:iface_call(x.begin(typeid(T))[p],K_SET|id);break;
          case 3:(*(x.template segment<T>().begin()+p)).arg.id=id;break;
          case 4:{l_iterator<T> li{x.begin(typeid(T))+p};li->arg.id=id;break;}
          default:for(auto sg:x.segment_traversal())
            if(sg.type_info()==typeid(T))
              (sg.template begin<T>()+p)->arg.id=id;
        }
      });
#if SIM_KIND==0
      /* as if the element had been constructed by another dynamic module */
      if constexpr(tag_of<T>::value==1||tag_of<T>::value==3||
                   tag_of<T>::value==4||tag_of<T>::value==7)
        if(cfg.dup&&s.p[3]%3){
          for(auto& y:x.template segment<T>())make_foreign<T,4>(y);
          foreign=true;
          ++g_stats.foreign;
        }
#endif
    });
    settle(s,o,e);
  }

  /* -------------------------------------------------- queries, iterators */

  void op_unreg(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    if(m[i].seg[t].reg){ /* prefer an unregistered one */
      for(int k=0;k<NT;++k){int u=pick_type(s.p[1]+k);
        if(!m[i].seg[u].reg){t=u;break;}}
    }
    C& x=*c[i];const C& cx=x;
    Exp e=expect_same();
    e.fr.target=1u<<i;
    all_stable();
    if(!m[i].seg[t].reg){e.allow=1u<<O_UNREG;e.must_tag=t;}
    std::size_t n=m[i].seg[t].v.size();
    Outcome o;
    bool okv=true;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      const std::type_info& ti=this->info(t);
      o=this->call(s,[&]{
        switch(s.p[2]%20){
          case 0:okv=x.end(ti)-x.begin(ti)==(std::ptrdiff_t)n;break;
          case 1:okv=cx.end(ti)-cx.begin(ti)==(std::ptrdiff_t)n;break;
          case 2:okv=x.template end<T>()-x.template begin<T>()==
            (std::ptrdiff_t)n;break;
          case 3:okv=cx.template end<T>()-cx.template begin<T>()==
            (std::ptrdiff_t)n;break;
          case 4:okv=cx.size(ti)==n;break;
          case 5:okv=cx.template size<T>()==n;break;
          case 6:okv=cx.empty(ti)==(n==0);break;
          case 7:okv=cx.template empty<T>()==(n==0);break;
          case 8:okv=cx.capacity(ti)>=n;break;
          case 9:okv=cx.template capacity<T>()>=n;break;
          case 10:okv=cx.max_size(ti)>=n;break;
          case 11:okv=cx.template max_size<T>()>=n;break;
          case 12:x.segment(ti);break;
          case 13:cx.segment(ti);break;
          case 14:x.template segment<T>();break;
          case 15:cx.template segment<T>();break;
          case 16:okv=x.cend(ti)-x.cbegin(ti)==(std::ptrdiff_t)n;break;
          case 17:okv=x.template cend<T>()-x.template cbegin<T>()==
            (std::ptrdiff_t)n;break;
          case 18:x.end(ti);break;
          default:cx.template end<T>();break;
        }
      });
    });
    if(!okv)fail("view","query of T"+std::to_string(t)+
      " disagrees with its contents");
    settle(s,o,e);
  }

  void op_cursor(const Step& s)
  {
    int i=live_slot(s.p[0]);
    Cursor& q=cur[s.p[1]%NC];
    C& x=*c[i];const C& cx=x;
    q=Cursor{};
    std::size_t tot=m[i].total();
    if(!tot||s.p[2]%8==0){
      q.valid=true;q.slot=i;q.global_end=true;q.git=x.end();q.cgit=cx.end();
    }
    else{
      std::size_t k=s.p[3]%tot;
      gloc(i,k,q.tag,q.idx);
      q.slot=i;q.valid=true;
      if(s.p[2]%8==1){
        q.local_end=true;q.idx=m[i].seg[q.tag].v.size();
        q.lb=x.end(typeid_of_tag(q.tag));q.clb=cx.end(typeid_of_tag(q.tag));
      }
      else{
        q.git=gpos(x,k);q.cgit=q.git;
        q.lb=x.begin(info_of(q.tag))+(std::ptrdiff_t)q.idx;
        q.clb=q.lb;
        q.addr=obs[i].seg[q.tag].addr[q.idx];
      }
    }
    Exp e=expect_same();
    all_stable();
    settle(s,Outcome{},e);
  }
  static const std::type_info& typeid_of_tag(int t){return info_of(t);}

  void op_exhaust(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    std::size_t n=m[i].seg[t].v.size()+s.p[2]%5;
    std::size_t lim=m[i].seg[t].reg?obs[i].seg[t].maxs:
      cfg.maxcount?cfg.maxcount-1:1000;
    if(n>lim)n=lim;
    Step q=s;
    q.op=OP_RESERVE_T;q.fmask=0;
    do_reserve_t(q,i,t,n,false);
    if(g_violation.set)return;
    Rng r{((u64)s.p[3]<<32)|s.p[4]};
    for(int k=0;k<12&&!g_violation.set;++k){
      if(m[i].seg[t].v.size()>=obs[i].seg[t].cap)break;
      Step w;
      w.op=OP_INSERT;
      /* choose the slot and type explicitly */
      w.p[0]=slot_code(i);w.p[1]=type_code(t);
      static const u32 srcs[]={S_EMPLACE,S_EMPLACE,S_CREF,S_RREF,S_ACOPY,
        S_AEMPL,S_AICOPY};
      w.p[2]=srcs[r.below(7)];w.p[3]=r.below(6);w.p[4]=r.u();w.p[5]=r.u();
      w.p[6]=r.u();w.p[7]=r.u();
      w.fmask=1u<<FK_ALLOC;w.fpers=1;w.fcount=0;
      ++g_stats.exhaust_inserts;
      op_insert(w);
      if(!g_violation.set&&r.chance(1,6)&&m[i].total()){
        Step z;z.op=OP_ERASE;z.p[0]=slot_code(i);z.p[1]=r.u();z.p[2]=r.u();
        z.fmask=1u<<FK_ALLOC;z.fpers=1;
        op_erase(z);
      }
    }
  }
  u32 slot_code(int i)const
  {u32 k=0;for(int j=0;j<i;++j)if(c[j])++k;return k;}
  u32 type_code(int t)const
  {u32 k=0;for(int j=0;j<t;++j)if(cfg.types&(1u<<j))++k;return k;}

  /* many insertions at the end: amortised constant element work, few
   * allocations */
  void op_fill(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int t=pick_type(s.p[1]);
    C& x=*c[i];
    bool mid=(cfg.grow&G_MID)!=0;
    std::size_t n=mid?8+s.p[2]%50:100+s.p[2]%150,n0=m[i].seg[t].v.size();
    std::size_t lim=m[i].seg[t].reg?obs[i].seg[t].maxs:
      cfg.maxcount?cfg.maxcount-1:100000;
    if(n0+n>lim)n=lim>n0?lim-n0:0;
    Exp e=expect_same();
    e.fr.target=1u<<i;
    e.fr.mayreg[i]=1u<<t;
    all_stable();
    if(n){e.post[i].seg[t].reg=true;stable[i][t]=0;}
    std::vector<u32> ids;
    for(std::size_t k=0;k<n;++k)ids.push_back(fresh());
    for(auto id:ids)e.post[i].seg[t].v.push_back(id);
    u32 form=s.p[3]%12;
    if(form>=6&&(!n||!tt(t).copyable))form%=6;
    /* geometric growth by any factor from 1.25 up, plus one operation or two
     * per insertion */
    e.work=8*(n0+n)+4*n+16;
    u64 a0=g_heap.nalloc;
    Step q=s;q.fmask=0;
    Outcome o;
    if(form>=6)with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      /* short ranges one after the other: equivalent to one by one */
      std::vector<T> ext;ext.reserve(ids.size()+1);
      for(auto id:ids)ext.emplace_back(Arg{id});
      std::vector<const iface_t*> ptrs;
      std::optional<C> d;
      if(form>=9){
        d.emplace(x.get_allocator());
        d->template reserve<T>(ids.size());
        for(auto id:ids)d->template emplace<T>(Arg{id});
      }
      x.template register_types<T>();
      u32 st=1+s.p[5]%3;
      a0=g_heap.nalloc;
      o=this->call(q,[&]{
        for(std::size_t k=0;k<ids.size();k+=st){
          std::size_t l=std::min<std::size_t>(ids.size(),k+st);
          auto b=ext.cbegin();
          const T* bp=ext.data();
          switch(form){
            case 6:x.insert(b+k,b+l);break;
            case 7:x.insert(x.cend(),b+k,b+l);break;
            case 8:if(s.p[6]&1)x.insert(x.template end<T>(),b+k,b+l);
              else x.insert(InIt<T>{bp+k},InIt<T>{bp+l});break;
            case 9:x.insert(d->template begin<T>()+k,d->template begin<T>()+l);
              break;
            case 10:if(s.p[6]&1)x.insert(x.cend(),d->begin(typeid(T))+k,
                d->begin(typeid(T))+l);
              else x.insert(x.end(typeid(T)),d->begin(typeid(T))+k,
                d->begin(typeid(T))+l);break;
            default:{
              auto i1=this->gpos(*d,k),i2=this->gpos(*d,l);
              if(s.p[6]&1)x.insert(i1,i2);else x.insert(x.cend(),i1,i2);
            }
          }
        }
      });
    });
    else with_type(t,[&](auto tt_){
      using T=typename decltype(tt_)::type;
      o=this->call(q,[&]{
        for(auto id:ids){
          Arg a{id};
          u32 f=form==5?id%5:form;
          switch(f){
            case 0:x.template emplace<T>(a);break;
            case 1:x.insert(T{a});break;
            case 2:x.template emplace_hint<T>(x.cend(),a);break;
            case 3:x.insert(x.cend(),T{a});break;
            default:
              if(!x.template is_registered<T>())x.template emplace<T>(a);
              else x.emplace_pos(x.template end<T>(),a);
          }
        }
      });
    });
    u64 na=g_heap.nalloc-a0;
    settle(q,o,e);
    if(g_violation.set)return;
    u64 lg=1;while((std::size_t(1)<<lg)<n0+n+2)++lg;
    if(na>8*lg+16)
      fail("work","fill: "+std::to_string(na)+" allocations for "+
        std::to_string(n)+" insertions at the end");
    ++g_stats.fills;
    if(g_violation.set||!n||((cfg.grow&G_BULK)&&(s.p[4]%3)))return;
    Step z;z.p[0]=slot_code(i);z.p[1]=type_code(t);z.p[2]=s.p[6];
    if(mid){
      /* full segments: the next insertion grows */
      if(s.p[4]%3==0)return;
      z.op=OP_SHRINK_T;
      op_shrink_t(z);
      return;
    }
    z.op=OP_CLEAR_T;
    op_clear_t(z);
  }

  void op_length(const Step& s)
  {
    int i=live_slot(s.p[0]);
    int l[NM],n=0;
    for(int t=0;t<NM;++t)if(m[i].seg[t].reg)l[n++]=t;
    if(!n){++g_stats.ops_skipped;return;}
    int t=l[s.p[1]%n];
    C& x=*c[i];
    std::size_t k=obs[i].seg[t].maxs+1+s.p[2]%3;
    if(s.p[3]%4==0)k=std::size_t(-1)-s.p[2]%2;
    if(s.p[3]%4==1)k=obs[i].seg[t].maxs+obs[i].seg[t].maxs/2;
    if(k<=obs[i].seg[t].maxs)k=obs[i].seg[t].maxs+1;
    Exp e=expect_same();
    e.fr.target=1u<<i;
    e.allow=1u<<O_LENGTH;
    all_stable();
    bool all=false;
    Outcome o;
    with_type(t,[&](auto a){
      using T=typename decltype(a)::type;
      o=this->call(s,[&]{
        switch(s.p[4]%3){
          case 0:x.reserve(this->info(t),k);break;
          case 1:x.template reserve<T>(k);break;
          default:{
            /* every segment must reject it */
            for(int u=0;u<NT;++u)
              if(this->m[i].seg[u].reg&&k<=this->obs[i].seg[u].maxs)all=true;
            if(all)x.template reserve<T>(k);else x.reserve(k);
          }
        }
      });
    });
    settle(s,o,e);
  }

  template<typename It> static const void* iter_addr(const It& i)
  {return view_of(*i.operator->()).addr;}

  void op_iters(const Step& s)
  {
    int i=live_slot(s.p[0]);
    C& x=*c[i];const C& cx=x;
    int l[NM],nt=0;
    for(int t=0;t<NM;++t)if(m[i].seg[t].reg)l[nt++]=t;
    Exp e=expect_same();
    all_stable();
    if(nt){
      int t=l[s.p[1]%nt];
      std::ptrdiff_t n=(std::ptrdiff_t)m[i].seg[t].v.size();
      std::ptrdiff_t a=(std::ptrdiff_t)(s.p[2]%(n+1)),
        b=(std::ptrdiff_t)(s.p[3]%(n+1));
      const OSeg& g=obs[i].seg[t];
      auto laws=[&](auto it,const char* what){
        auto p=it+a,q=it+b;
        bool ok=(q-p)==(b-a)&&(p<q)==(a<b)&&(p==q)==(a==b)&&(p<=q)==(a<=b)&&
          (p>q)==(a>b)&&(p>=q)==(a>=b)&&(p!=q)==(a!=b)&&p+(b-a)==q&&
          q-(b-a)==p;
        auto r=p;r+=b-a;ok=ok&&r==q;r-=b-a;ok=ok&&r==p;
        if(a<n){auto z=p;auto y=z++;ok=ok&&y==p&&z==it+(a+1);--z;ok=ok&&z==p;
          ok=ok&&view_of(*p).addr==g.addr[(std::size_t)a]&&
            view_of(it[a]).addr==g.addr[(std::size_t)a];
          if(b<n)ok=ok&&view_of(p[b-a]).addr==g.addr[(std::size_t)b];}
        auto w=it;w=q;ok=ok&&w==q;
        using std::swap;auto p2=p,q2=q;swap(p2,q2);ok=ok&&p2==q&&q2==p;
        if(!ok)fail("iter",std::string(what)+": iterator laws broken");
      };
      with_type(t,[&](auto tt_){
        using T=typename decltype(tt_)::type;
        const std::type_info& ti=this->info(t);
        laws(x.begin(ti),"local_base_iterator");
        laws(cx.begin(ti),"const_local_base_iterator");
        laws(x.template begin<T>(),"local_iterator");
        laws(cx.template begin<T>(),"const_local_iterator");
        /* conversions */
        bool ok=true;
        clb_iterator k1=x.begin(ti)+a;ok=ok&&k1==cx.begin(ti)+a;
        cl_iterator<T> k2=x.template begin<T>()+a;
        ok=ok&&k2==cx.template begin<T>()+a;
        lb_iterator k3{x.template begin<T>()+a};ok=ok&&k3==x.begin(ti)+a;
        l_iterator<T> k4{x.begin(ti)+a};ok=ok&&k4==x.template begin<T>()+a;
        cl_iterator<T> k5{cx.begin(ti)+a};ok=ok&&k5==cx.template begin<T>()+a;
        clb_iterator k6{x.template begin<T>()+a};ok=ok&&k6==k1;
        clb_iterator k7{cx.template begin<T>()+a};ok=ok&&k7==k1;
        if(!ok)fail("iter","iterator conversions broken");
        /* the remaining spellings of the same ranges */
        auto rng=[&](auto b_,auto e_,const char* what){
          if((std::ptrdiff_t)(e_-b_)!=n)
            {fail("view",std::string(what)+": wrong length");return;}
          for(std::ptrdiff_t k=0;k<n;++k)
            if(view_of(b_[k]).addr!=g.addr[(std::size_t)k])
              {fail("view",std::string(what)+": wrong element");return;}
          if(n){
            auto q=e_;--q;
            if(view_of(*q).addr!=g.addr[(std::size_t)(n-1)]||
               view_of(e_[-1]).addr!=g.addr[(std::size_t)(n-1)]||
               (const void*)iter_addr(q)!=g.addr[(std::size_t)(n-1)])
              fail("view",std::string(what)+": wrong last element");
          }
        };
        rng(cx.cbegin(ti),cx.cend(ti),"cbegin(info)");
        rng(cx.template cbegin<T>(),cx.template cend<T>(),"cbegin<T>()");
        {
          auto sg=cx.template segment<T>();auto s2=sg;s2=sg;
          rng(s2.begin(),s2.end(),"const segment<T>()");
          rng(s2.cbegin(),s2.cend(),"const segment<T>().cbegin()");
          auto s3=x.template segment<T>();auto s4=s3;s4=s3;
          rng(s4.begin(),s4.end(),"segment<T>()");
          rng(s4.cbegin(),s4.cend(),"segment<T>().cbegin()");
          const auto& s5=s4;
          rng(s5.begin(),s5.end(),"segment<T>() const");
        }
        {
          auto sg=cx.segment(ti);auto s2=sg;s2=sg;
          rng(s2.cbegin(),s2.cend(),"const segment(info).cbegin()");
          rng(s2.template cbegin<T>(),s2.template cend<T>(),
            "const segment(info).cbegin<T>()");
          auto s4=x.segment(ti);const auto& s5=s4;
          rng(s5.begin(),s5.end(),"segment(info) const");
          rng(s5.template begin<T>(),s5.template end<T>(),
            "segment(info).begin<T>() const");
        }
        {
          auto st=x.segment_traversal();
          typename C::const_base_segment_info_iterator ci=st.begin(),
            ce=st.end();
          auto cst=cx.segment_traversal();
          auto c2=cst.cbegin();
          auto mi=st.begin();
          int found=0;
          for(auto q=ci;q!=ce;++q,++c2,++mi){
            if(!(q->type_info()==c2->type_info())||
               !((*q).type_info()==(*mi).type_info()))
              fail("view","segment_traversal() orders differ");
            if(q->type_info()==typeid(T)){
              ++found;
              rng(q->begin(),q->end(),"segment_traversal() const");
              rng(mi->begin(),mi->end(),"segment_traversal()");
              rng(mi->template begin<T>(),mi->template end<T>(),
                "segment_traversal()->begin<T>()");
            }
          }
          if(!(c2==cst.cend())||!(mi==st.end())||found!=1)
            fail("view","segment_traversal() lengths differ");
        }
        /* global <- local */
        if(a<n){
          auto k=this->gindex(i,t,(std::size_t)a);
          iterator gi=this->gpos(x,k);
          const_iterator gc=gi;
          if(view_of(*gi).addr!=g.addr[(std::size_t)a]||
             view_of(*gc).addr!=g.addr[(std::size_t)a]||!(gc==gi))
            fail("iter","global iterator broken");
          auto pi=gi++;
          if(!(pi==this->gpos(x,k))||!(gi==this->gpos(x,k+1)))
            fail("iter","global iterator post-increment broken");
        }
      });
    }
    settle(s,Outcome{},e);
  }

  /* ------------------------------------------------------------ dispatch */

  void run_step(const Step& s)
  {
    ++g_stats.steps;
    if(s.op<OP_N)++g_stats.op_count[s.op];
    g_es=ElemStats{};g_heap.op_arenas=0;
    switch(s.op){
      case OP_NEW:op_new(s);break;
      case OP_DESTROY:op_destroy(s);break;
      case OP_COPYC:case OP_COPYC_AL:op_copyc(s);break;
      case OP_MOVEC:case OP_MOVEC_AL:op_movec(s);break;
      case OP_RANGEC:op_rangec(s);break;
      case OP_CASSIGN:op_cassign(s);break;
      case OP_MASSIGN:op_massign(s);break;
      case OP_SWAP:op_swap(s);break;
      case OP_REG:op_reg(s);break;
      case OP_RESERVE:op_reserve(s);break;
      case OP_RESERVE_T:op_reserve_t(s);break;
      case OP_SHRINK:op_shrink(s);break;
      case OP_SHRINK_T:op_shrink_t(s);break;
      case OP_INSERT:op_insert(s);break;
      case OP_RANGE:op_range(s);break;
      case OP_ERASE:op_erase(s);break;
      case OP_ERASE_RANGE:op_erase_range(s);break;
      case OP_CLEAR:op_clear(s);break;
      case OP_CLEAR_T:op_clear_t(s);break;
      case OP_EQ:op_eq(s);break;
      case OP_MUTATE:op_mutate(s);break;
      case OP_UNREG:op_unreg(s);break;
      case OP_CURSOR:op_cursor(s);break;
      case OP_EXHAUST:op_exhaust(s);break;
      case OP_LENGTH:op_length(s);break;
      case OP_SELFASSIGN:op_selfassign(s);break;
      case OP_ITERS:op_iters(s);break;
      case OP_FILL:op_fill(s);break;
      case OP_WIDE:op_wide(s);break;
      case OP_SIDE:op_side(s);break;
      default:break;
    }
  }

  /* faults have stopped: everything must work again, then vanish cleanly */
  void recover()
  {
    ++g_stats.recoveries;
    Rng r{next_id};
    for(int i=0;i<NS&&!g_violation.set;++i)if(c[i]){
      for(int t=0;t<NT&&!g_violation.set;++t)if(cfg.types&(1u<<t)){
        if(m[i].seg[t].reg&&m[i].seg[t].v.size()>=obs[i].seg[t].maxs)continue;
        Step w;w.op=OP_INSERT;w.p[0]=slot_code(i);w.p[1]=type_code(t);
        w.p[2]=S_EMPLACE;w.p[3]=r.below(6);w.p[4]=r.u();
        op_insert(w);
      }
      if(g_violation.set)return;
      if(m[i].total()){
        Step w;w.op=OP_ERASE;w.p[0]=slot_code(i);w.p[1]=r.u();w.p[2]=r.u();
        op_erase(w);
      }
      if(g_violation.set)return;
      if(!nocopy_mask(m[i])){
        Step w;w.op=OP_COPYC;w.p[0]=slot_code(i);w.p[1]=r.u();
        op_copyc(w);
      }
      if(g_violation.set)return;
      {Step w;w.op=OP_CLEAR;w.p[0]=slot_code(i);op_clear(w);}
    }
    if(g_violation.set)return;
    for(int i=0;i<NS;++i)free_slot(i);
    if(!g_live_elems.empty())
      fail("leak",std::to_string(g_live_elems.size())+
        " elements alive after all collections were destroyed");
    else if(!g_acc.by_alloc.empty())
      fail("leak","elements not destroyed through the allocator");
    else if(!g_heap.live.empty())
      fail("leak",std::to_string(g_heap.live.size())+
        " memory blocks not returned after all collections were destroyed");
  }
