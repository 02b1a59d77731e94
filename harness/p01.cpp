// independent oracle: plain OpenSSL calls on fresh BIGNUMs with the school-book definitions
#include "p05.inc"
typedef BIGNUM* BN;
static BN_CTX *cx;
static BN cp(const BigInt&a){ return BN_dup(a.bn_ptr); }
static bool is(const BigInt&a, BN b){ return BN_cmp(a.bn_ptr,b)==0; }
static BN nn(BN a, BN m){ BN r=BN_new(); BN_div(nullptr,r,a,m,cx); if(BN_is_negative(r)) BN_add(r,r,m); return r; }
static BN add(BN a,BN b){ BN r=BN_new(); BN_add(r,a,b); return r; }
static BN sub(BN a,BN b){ BN r=BN_new(); BN_sub(r,a,b); return r; }
static BN mul(BN a,BN b){ BN r=BN_new(); BN_mul(r,a,b,cx); return r; }
static BN w(unsigned long x){ BN r=BN_new(); BN_set_word(r,x); return r; }
static BN neg(BN a){ return sub(w(0),a); }
static std::string S(const BigInt&a){ char*s=BN_bn2dec(a.bn_ptr); std::string r(s); OPENSSL_free(s); return r; }
static BigInt mk(BN b){ return BigInt((const BIGNUM*)b); }
static std::vector<BigInt> pool(const BigInt&m){
  std::vector<BigInt> v; BN M=cp(m);
  for(BN b: {w(0),w(1),w(2),w(3),w(255),w(256),w(~0ul),neg(w(1)),neg(w(2)),neg(w(77)),M,neg(M),mul(M,w(2)),mul(M,neg(w(3))),sub(M,w(1)),add(M,w(1)),sub(w(1),M),mul(M,M)}) v.push_back(mk(b));
  for(int i=0;i<6;i++){ BN r=BN_new(); BN_rand(r,1+(int)V::rnd(520),-1,0); if(V::rnd(2)) BN_set_negative(r,1); v.push_back(mk(r)); }
  return v; }
static std::vector<BigInt> moduli(){ std::vector<BigInt> v={BigInt(order),BigInt(curve_params_p),mk(w(1)),mk(w(2)),mk(w(7)),mk(w(256)),mk(w(1000000))}; return v; }
CASE("bigint-arith"){ cx=BN_CTX_new();
  for(auto &m: moduli()){ auto P=pool(m); BN M=cp(m);
    for(auto &a: P){ BN A=cp(a);
      CHECK(is(a.Negate(),neg(A)),"negate",S(a)); CHECK(is(-a,neg(A)),"neg-op",S(a)); CHECK(is(a.Square(),mul(A,A)),"square",S(a));
      CHECK(is(a.Mod(m),nn(A,M)),"mod",S(a)<<" mod "<<S(m)); CHECK(is(a%m,nn(A,M)),"mod-op",S(a)); CHECK(is(a.ModSquare(m),nn(mul(A,A),M)),"modsquare",S(a)<<" mod "<<S(m));
      CHECK(is(a.ModNegate(m),nn(neg(A),M)),"modnegate",S(a)<<" mod "<<S(m));
      CHECK(a.IsZero()==(BN_is_zero(A)!=0),"iszero",S(a)); CHECK(a.IsOne()==(BN_cmp(A,w(1))==0),"isone",S(a)); CHECK(a.IsNonNegative()==(BN_cmp(A,w(0))>=0),"nonneg",S(a));
      CHECK(a.GetBitLength()==(size_t)BN_num_bits(A),"bits",S(a)); CHECK(a.GetByteLength()==(size_t)((BN_num_bits(A)+7)/8),"bytes",S(a));
      BigInt c(a); CHECK(c==a,"copy",S(a)); BigInt d; d=a; CHECK(d==a,"assign",S(a)); CHECK(is(a,A),"frame",S(a));
      d+=mk(w(1)); CHECK(is(a,A)&&is(d,add(A,w(1))),"alias","assignment shares storage");
      if(BN_cmp(A,w(0))>=0){
        for(int n: {0,1,7,8,63,64,65,200}){ BN two=BN_new(); BN_lshift(two,w(1),n); BN q=BN_new(); BN_div(q,nullptr,A,two,cx); CHECK(is(a.Rshift(n),q),"rshift",S(a)<<">>"<<n); CHECK(is(a.Lshift(n),mul(A,two)),"lshift",S(a)<<"<<"<<n);
          BigInt e=a; CHECK(is(e>>n,q)&&is(e<<n,mul(A,two)),"shift-op",S(a)); e>>=n; CHECK(is(e,q),"shift-assign",S(a)); e=a; e<<=n; CHECK(is(e,mul(A,two)),"lshift-assign",S(a));
          CHECK(is(a.GetLastNBits(n),nn(A,two)),"lastbits",S(a)<<" "<<n); bool bit=BN_is_odd(q); CHECK(a.IsBitSet(n)==bit,"isbitset",S(a)<<" "<<n); CHECK(a.GetTheNthBit(n)==(int)bit,"nthbit",S(a)<<" "<<n); }
        if(BN_num_bits(A)<=256){ auto bv=a.ToByteVector(32); BigInt e; e.FromByteVector(bv); CHECK(e==a&&bv.size()==32,"bytevec",S(a)); }
        std::string s=a.ToByteString(); BigInt e=mk(w(99)); e.FromByteString(s); CHECK(e==a,"bytestring",S(a));
        BigInt e2; e2.FromByteString((const unsigned char*)s.data(),s.size()); CHECK(e2==a,"bytestring-raw",S(a));
        if(BN_num_bits(A)<=64) CHECK(a.ToUint64()==BN_get_word(A),"uint64",S(a));
        if(BN_num_bits(A)<=12){ BN r=w(1); for(unsigned long k=0;k<5;k++){ CHECK(is(a.Exp(mk(w(k))),r),"exp",S(a)<<"^"<<k); r=mul(r,A); } }
      }
      BN g=BN_new(); if(BN_gcd(g,A,M,cx)&&BN_is_one(g)&&!BN_is_one(M)){ BigInt i=a.ModInverse(m); CHECK(is((i*a).Mod(m),w(1))&&i<m&&i.IsNonNegative(),"modinv",S(a)<<" mod "<<S(m)); }
      for(auto &b: P){ BN B=cp(b);
        CHECK(is(a+b,add(A,B))&&is(a.Add(b),add(A,B)),"add",S(a)<<" "<<S(b)); CHECK(is(a-b,sub(A,B))&&is(a.Sub(b),sub(A,B)),"sub",S(a)<<" "<<S(b)); CHECK(is(a*b,mul(A,B))&&is(a.Mul(b),mul(A,B)),"mul",S(a)<<" "<<S(b));
        CHECK(is(a.ModAdd(b,m),nn(add(A,B),M)),"modadd",S(a)<<" "<<S(b)<<" mod "<<S(m)); CHECK(is(a.ModSub(b,m),nn(sub(A,B),M)),"modsub",S(a)<<" "<<S(b)<<" mod "<<S(m)); CHECK(is(a.ModMul(b,m),nn(mul(A,B),M)),"modmul",S(a)<<" "<<S(b)<<" mod "<<S(m));
        int c0=BN_cmp(A,B); CHECK(a.CompareTo(b)==(c0>0)-(c0<0),"cmp",S(a)<<" "<<S(b)); CHECK((a==b)==(c0==0)&&(a!=b)==(c0!=0)&&(a<b)==(c0<0)&&(a>b)==(c0>0)&&(a<=b)==(c0<=0)&&(a>=b)==(c0>=0),"rel",S(a)<<" "<<S(b));
        if(!BN_is_zero(B)){ BN q=BN_new(),r=BN_new(); BN_div(q,r,A,B,cx); CHECK(is(a.DivAndTruncate(b),q)&&is(a/b,q),"div",S(a)<<" "<<S(b)); BigInt e=a; e/=b; CHECK(is(e,q),"div-assign",S(a)); }
        BN g2=BN_new(); BN_gcd(g2,A,B,cx); CHECK(is(a.GCD(b),g2),"gcd",S(a)<<" "<<S(b));
        BigInt e=a; e+=b; CHECK(is(e,add(A,B)),"add-assign",S(a)); e=a; e-=b; CHECK(is(e,sub(A,B)),"sub-assign",S(a)); e=a; e*=b; CHECK(is(e,mul(A,B)),"mul-assign",S(a)); e=a; e%=m; CHECK(is(e,nn(A,M)),"mod-assign",S(a));
        CHECK(is(b,B)&&is(a,A)&&is(m,M),"frame2","operand modified");
        if(BN_cmp(B,w(0))>=0&&BN_num_bits(B)<=512&&!BN_is_one(M)){ // square and multiply, independent of BN_mod_exp
          BN r=nn(w(1),M), x=nn(A,M); for(int i=BN_num_bits(B)-1;i>=0;i--){ r=nn(mul(r,r),M); if(BN_is_bit_set(B,i)) r=nn(mul(r,x),M); } if(V::rnd(4)==0||BN_num_bits(B)<9) CHECK(is(a.ModExp(b,m),r),"modexp",S(a)<<"^"<<S(b)<<" mod "<<S(m)); }
      } } } }
CASE("bigint-self"){ cx=BN_CTX_new(); for(auto a: pool(BigInt(order))){ BN A=cp(a); BigInt e=a; e+=e; CHECK(is(e,add(A,A)),"add",S(a)); e=a; e-=e; CHECK(e.IsZero(),"sub",S(a)); e=a; e*=e; CHECK(is(e,mul(A,A)),"mul",S(a)); e=a; e=e; CHECK(is(e,A),"assign",S(a));
  BigInt o(order); CHECK(is(a.ModAdd(a,o),nn(add(A,A),order))&&is(a.ModSub(a,o),w(0))&&is(a.ModMul(a,o),nn(mul(A,A),order)),"mod",S(a)); }
  CHECK(BigInt(size_t(0)).IsZero()&&BigInt().IsZero()&&is(BigInt(size_t(~0ul)),w(~0ul))&&is(bn_0,w(0))&&is(bn_1,w(1))&&is(bn_2,w(2))&&is(bn_3,w(3)),"ctor","constants"); }
CASE("bigint-vectors"){ cx=BN_CTX_new(); for(size_t n: {0,1,2,3,8,9,33}){ for(auto &m: moduli()){ auto P=pool(m); std::vector<BigInt> a,b; for(size_t i=0;i<n;i++){ a.push_back(P[V::rnd(P.size())]); b.push_back(P[V::rnd(P.size())]); } auto a0=a,b0=b; BigInt c=P[V::rnd(P.size())]; BN M=cp(m);
   auto s=BigIntVectorModAdd(a,b,m), d=BigIntVectorModSub(a,b,m), p=BigIntVectorModProduct(a,b,m), q=BigIntVectorProduct(a,b), k=BigIntVectorModScalar(a,c,m), k2=BigIntVectorScalar(a,c); BigInt mm=m; auto ng=BigIntVectorModNegate(a,mm);
   CHECK(s.size()==n&&d.size()==n&&p.size()==n&&q.size()==n&&k.size()==n&&k2.size()==n&&ng.size()==n,"size",n); BN ip=w(0);
   for(size_t i=0;i<n;i++){ BN A=cp(a0[i]),B=cp(b0[i]); ip=add(ip,mul(A,B)); CHECK(is(s[i],nn(add(A,B),M)),"modadd",i); CHECK(is(d[i],nn(sub(A,B),M)),"modsub",i); CHECK(is(p[i],nn(mul(A,B),M)),"modprod",i); CHECK(is(q[i],mul(A,B)),"prod",i); CHECK(is(k[i],nn(mul(A,cp(c)),M)),"modscalar",i); CHECK(is(k2[i],mul(A,cp(c))),"scalar",i); CHECK(is(ng[i],nn(neg(A),M)),"modneg",S(a0[i])<<" mod "<<S(m)); }
   CHECK(is(BigIntVectorModInnerProduct(a,b,m),nn(ip,M))&&is(BigIntVectorInnerProduct(a,b,m),nn(ip,M)),"inner",n); CHECK(a==a0&&b==b0,"frame","vector operand modified"); }
   BigInt o(order); auto r=GenRandomBigIntVectorLessThan(n,o); CHECK(r.size()==n,"rand-size",n); for(size_t i=0;i<n;i++){ CHECK(r[i]<o&&r[i].IsNonNegative(),"rand-range",i); for(size_t j=0;j<i;j++) CHECK(r[i]!=r[j],"rand-distinct",i<<" "<<j); }
   std::vector<BigInt> u; for(size_t i=0;i<n;i++) u.push_back(rs()); auto iv=BigIntVectorModInverse(u,o); for(size_t i=0;i<n;i++) CHECK(((u[i]*iv[i])%o).IsOne(),"inv",i); } }
CASE("random-range"){ for(size_t lo: {0,1,5,1000}) for(size_t n: {1,2,3,10}){ std::set<size_t> seen; for(int i=0;i<200;i++){ BigInt r=GenRandomBigIntBetween(BigInt(lo),BigInt(lo+n)); size_t x=r.ToUint64(); CHECK(x>=lo&&x<lo+n,"between",lo<<" "<<n<<" gave "<<x); seen.insert(x); BigInt t=GenRandomBigIntLessThan(BigInt(n)); CHECK(t<BigInt(n)&&t.IsNonNegative(),"less",n); BN z=w(n); CHECK(GenRandomBigIntLessThan((const BIGNUM*)z)<BigInt(n),"less-bn",n); BN_free(z);} CHECK(seen.size()==n,"cover",lo<<" "<<n<<": only "<<seen.size()<<" values"); } }
static EC_POINT *ref_mul(const EC_POINT*A, BN k){ // double and add
  EC_POINT *r=EC_POINT_new(group); EC_POINT_set_to_infinity(group,r); for(int i=BN_num_bits(k)-1;i>=0;i--){ EC_POINT_dbl(group,r,r,cx); if(BN_is_bit_set(k,i)) EC_POINT_add(group,r,r,A,cx); } if(BN_is_negative(k)) EC_POINT_invert(group,r,cx); return r; }
static bool peq(const ECPoint&A,const EC_POINT*B){ return EC_POINT_cmp(group,A.point_ptr,B,cx)==0; }
CASE("points"){ cx=BN_CTX_new(); BigInt o(order); ECPoint g(generator); ECPoint inf; inf.SetInfinity(); CHECK(GetPointAtInfinity()==inf&&inf.IsAtInfinity()&&!g.IsAtInfinity(),"inf","identity");
  std::vector<ECPoint> Ps={g,inf,-g,g+g,GenRandomECPoint(),GenRandomECPoint()}; std::vector<BigInt> ks; { BN O=cp(o); for(BN b: {w(0),w(1),w(2),w(3),neg(w(1)),neg(w(5)),O,sub(O,w(1)),add(O,w(1)),mul(O,w(2)),mul(O,O),neg(O),w(~0ul)}) ks.push_back(mk(b)); for(int i=0;i<4;i++) ks.push_back(rs()); }
  for(auto &A: Ps){ EC_POINT *a=EC_POINT_dup(A.point_ptr,group); 
    for(auto &k: ks){ EC_POINT*r=ref_mul(a,k.bn_ptr); CHECK(peq(A*k,r)&&peq(A.Mul(k),r),"mul",S(k)); ECPoint e=A; e*=k; CHECK(peq(e,r),"mul-assign",S(k)); }
    EC_POINT*i=EC_POINT_dup(a,group); EC_POINT_invert(group,i,cx); CHECK(peq(-A,i)&&peq(A.Invert(),i),"invert",""); CHECK(A.IsAtInfinity()==(EC_POINT_is_at_infinity(group,a)!=0),"isinf",""); CHECK((A+(-A)).IsAtInfinity()&&(A-A).IsAtInfinity(),"cancel",""); CHECK(A.IsOnCurve()&&(A.IsValid()==!A.IsAtInfinity()),"valid","");
    for(auto &B: Ps){ EC_POINT*r=EC_POINT_new(group); EC_POINT_add(group,r,a,B.point_ptr,cx); CHECK(peq(A+B,r)&&peq(A.Add(B),r),"add",""); EC_POINT*j=EC_POINT_dup(B.point_ptr,group); EC_POINT_invert(group,j,cx); EC_POINT_add(group,r,a,j,cx); CHECK(peq(A-B,r)&&peq(A.Sub(B),r),"sub","");
      bool e=EC_POINT_cmp(group,a,B.point_ptr,cx)==0; CHECK((A==B)==e&&(A!=B)==!e&&A.CompareTo(B)==e,"cmp",""); ECPoint x=A; x+=B; CHECK(x==A+B,"add-assign",""); x=A; x-=B; CHECK(x==A-B,"sub-assign",""); x.Clone(B); CHECK(x==B,"clone",""); x+=g; CHECK(x==B+g,"clone-alias","shares storage"); ECPoint y(B); y+=g; CHECK(y==B+g&&peq(A,a),"frame",""); }
    ECPoint x=A; x+=x; CHECK(x==A*bn_2,"double",""); x=A; x-=x; CHECK(x.IsAtInfinity(),"self-sub",""); CHECK(peq(A,a),"frame","operand modified"); }
  for(size_t n: {0,1,2,3,8,17,64}){ std::vector<ECPoint> A,B; std::vector<BigInt> s; for(size_t i=0;i<n;i++){ A.push_back(Ps[V::rnd(Ps.size())]); B.push_back(V::rnd(2)?GenRandomECPoint():Ps[V::rnd(Ps.size())]); s.push_back(ks[V::rnd(ks.size())]); } auto A0=A;auto s0=s;
    EC_POINT*acc=EC_POINT_new(group); EC_POINT_set_to_infinity(group,acc); std::vector<EC_POINT*> pre; pre.push_back(EC_POINT_dup(acc,group)); for(size_t i=0;i<n;i++){ EC_POINT_add(group,acc,acc,ref_mul(A[i].point_ptr,s[i].bn_ptr),cx); pre.push_back(EC_POINT_dup(acc,group)); }
    CHECK(peq(ECPointVectorMul(A,s),acc),"multi-mul",n); size_t lo=n?V::rnd(n):0, hi=lo+(n>lo?V::rnd(n-lo+1):0); { EC_POINT*d=EC_POINT_dup(pre[lo],group); EC_POINT_invert(group,d,cx); EC_POINT_add(group,d,pre[hi],d,cx); CHECK(peq(ECPointVectorMul(A,s,lo,hi),d),"multi-mul-range",n<<" "<<lo<<" "<<hi); }
    auto v=ECPointVectorAdd(A,B); BigInt k=ks[V::rnd(ks.size())]; auto u=ECPointVectorScalar(A,k); auto p=ECPointVectorProduct(A,s); CHECK(v.size()==n&&u.size()==n&&p.size()==n,"vec-size",n); for(size_t i=0;i<n;i++){ CHECK(v[i]==A[i]+B[i],"vec-add",i); CHECK(peq(u[i],ref_mul(A[i].point_ptr,k.bn_ptr)),"vec-scalar",i); CHECK(peq(p[i],ref_mul(A[i].point_ptr,s[i].bn_ptr)),"vec-product",i); } CHECK(A==A0&&s==s0,"vec-frame","operand modified");
    auto rp=GenRandomECPointVector(n); CHECK(rp.size()==n,"rand-size",n); for(size_t i=0;i<n;i++){ CHECK(rp[i].IsOnCurve()&&!rp[i].IsAtInfinity(),"rand-valid",i); for(size_t j=0;j<i;j++) CHECK(rp[i]!=rp[j],"rand-distinct",i); } }
  for(int i=0;i<20;i++){ ECPoint A=GenRandomECPoint(); BIGNUM*x=BN_new(),*y=BN_new(); EC_POINT_get_affine_coordinates(group,A.point_ptr,x,y,cx); CHECK(CreateECPoint(mk(x),mk(y))==A&&ECPoint(mk(x),mk(y))==A,"affine",""); BN x2=nn(mul(x,x),curve_params_p); CHECK(IsSquare(mk(x2)),"issquare",""); CHECK(!IsSquare(mk(nn(neg(x2),curve_params_p))),"nonsquare","-1 is a non-residue for p=3 mod 4"); }
}
CASE("parallel"){ cx=BN_CTX_new(); std::vector<ECPoint> A=GenRandomECPointVector(64); std::vector<BigInt> k; for(int i=0;i<64;i++) k.push_back(rs()); std::vector<int> ok(64);
  #pragma omp parallel for num_threads(8)
  for(int i=0;i<64;i++){ ECPoint x=A[i]*k[i]+A[(i+1)%64]; BigInt m=(k[i]*k[i]).Mod(BigInt(order)); ECPoint y=A[i]*m; ok[i]=(x-A[(i+1)%64])*k[i]==y; }
  for(int i=0;i<64;i++) CHECK(ok[i],"thread","result differs in a parallel region"); }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
