#include "crypto/setup.hpp"
#include "crypto/prg.hpp"
#include "crypto/aes.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "commitment/pedersen.hpp"
#include "signature/schnorr.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "adcp/adcp.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "h.hpp"
using Serialization::operator<<; using Serialization::operator>>;
// generators: edge values first, then random ones
static size_t K=0;
static BigInt gbn(){ K++; switch(V::rnd(8)){ case 0: return BigInt(bn_0); case 1: return BigInt(bn_1); case 2: return BigInt(order)-BigInt(bn_1); case 3: return BigInt(V::rnd(1<<20)); case 4: return BigInt(bn_2).Exp(BigInt(V::rnd(255)))-BigInt(bn_1);
    case 5: return (BigInt(bn_1)<<248) - BigInt(bn_1); default: return GenRandomBigIntLessThan(BigInt(order)); } }
static ECPoint gpt(){ switch(V::rnd(6)){ case 0: { ECPoint A; A.SetInfinity(); return A; } case 1: return ECPoint(generator); case 2: return ECPoint(generator).Invert(); default: return ECPoint(generator)*GenRandomBigIntLessThan(BigInt(order)); } }
static size_t gsz(){ switch(V::rnd(6)){ case 0: return 0; case 1: return ~(size_t)0; case 2: return 10; case 3: return 0x3030303030303030ull; default: return V::rng()(); } }
static block gblk(){ return Block::MakeBlock(gsz(),gsz()); }
static std::vector<ECPoint> gpts(size_t n){ std::vector<ECPoint> v(n); for(auto&x:v) x=gpt(); return v; }
static std::vector<BigInt> gbns(size_t n){ std::vector<BigInt> v(n); for(auto&x:v) x=gbn(); return v; }
static std::string gstr(size_t n){ std::string s(n,0); for(auto&c:s) c=(char)V::rnd(256); return s; }
#define F(T,...) static void gen(T&o){ __VA_ARGS__ } 
static bool eq(const size_t&a,const size_t&b){return a==b;} static bool eq(const BigInt&a,const BigInt&b){return a==b;} static bool eq(const ECPoint&a,const ECPoint&b){return a==b;}
static bool eq(const std::string&a,const std::string&b){return a==b;} static bool eq(const block&a,const block&b){return !memcmp(&a,&b,16);} static bool eq(const uint8_t&a,const uint8_t&b){return a==b;}
static bool eq(const EC25519Point&a,const EC25519Point&b){return !memcmp(a.px,b.px,32);} static bool eq(const int&a,const int&b){return a==b;}
template<class T> static bool eq(const std::vector<T>&a,const std::vector<T>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!eq(a[i],b[i])) return false; return true; }
static void gen(size_t&o){o=gsz();} static void gen(BigInt&o){o=gbn();} static void gen(ECPoint&o){o=gpt();} static void gen(std::string&o){o=gstr(V::rnd(3)?V::rnd(100):0);} static void gen(block&o){o=gblk();}
static void gen(std::vector<ECPoint>&o){o=gpts(V::rnd(6));} static void gen(std::vector<BigInt>&o){o=gbns(V::rnd(6));}
static void gen(EC25519Point&o){ for(auto&x:o.px) x=V::rnd(256); }
#define ST1(T,a) static void gen(T&o){gen(o.a);} static bool eq(const T&x,const T&y){return eq(x.a,y.a);}
#define ST2(T,a,b) static void gen(T&o){gen(o.a);gen(o.b);} static bool eq(const T&x,const T&y){return eq(x.a,y.a)&&eq(x.b,y.b);}
#define ST3(T,a,b,c) static void gen(T&o){gen(o.a);gen(o.b);gen(o.c);} static bool eq(const T&x,const T&y){return eq(x.a,y.a)&&eq(x.b,y.b)&&eq(x.c,y.c);}
#define ST4(T,a,b,c,d) static void gen(T&o){gen(o.a);gen(o.b);gen(o.c);gen(o.d);} static bool eq(const T&x,const T&y){return eq(x.a,y.a)&&eq(x.b,y.b)&&eq(x.c,y.c)&&eq(x.d,y.d);}
static void gen(AES::Key&o){ for(auto&x:o.roundkey) x=gblk(); o.ROUND_NUM=10+V::rnd(5); }
static bool eq(const AES::Key&a,const AES::Key&b){ for(int i=0;i<11;i++) if(!eq(a.roundkey[i],b.roundkey[i])) return false; return a.ROUND_NUM==b.ROUND_NUM; }
ST2(PRG::Seed,counter,aes_key)
ST1(ElGamal::PP,g) ST2(ElGamal::CT,X,Y)
ST4(ExponentialElGamal::PP,MSG_LEN,TRADEOFF_NUM,MSG_SIZE,g) ST2(ExponentialElGamal::CT,X,Y) ST2(ExponentialElGamal::MRCT,X,vec_Y)
static void gen(TwistedExponentialElGamal::PP&o){gen(o.MSG_LEN);gen(o.TRADEOFF_NUM);gen(o.MSG_SIZE);gen(o.g);gen(o.h);} static bool eq(const TwistedExponentialElGamal::PP&x,const TwistedExponentialElGamal::PP&y){return x.MSG_LEN==y.MSG_LEN&&x.TRADEOFF_NUM==y.TRADEOFF_NUM&&eq(x.MSG_SIZE,y.MSG_SIZE)&&eq(x.g,y.g)&&eq(x.h,y.h);}
ST2(TwistedExponentialElGamal::CT,X,Y) ST2(TwistedExponentialElGamal::MRCT,vec_X,Y)
ST1(Schnorr::PP,g) ST2(Schnorr::SIG,A,z) ST2(DLOGKnowledge::Proof,A,z) ST3(DLOGEquality::Proof,A1,A2,z) ST4(PlaintextKnowledge::Proof,A,B,z1,z2) ST4(PlaintextEquality::Proof,vec_A,B,z,t)
ST4(InnerProduct::Proof,vec_L,vec_R,a,b)
static void gen(Bullet::Proof&o){gen(o.A);gen(o.S);gen(o.T1);gen(o.T2);gen(o.taux);gen(o.mu);gen(o.tx);gen(o.ip_proof);} static bool eq(const Bullet::Proof&x,const Bullet::Proof&y){return eq(x.A,y.A)&&eq(x.S,y.S)&&eq(x.T1,y.T1)&&eq(x.T2,y.T2)&&eq(x.taux,y.taux)&&eq(x.mu,y.mu)&&eq(x.tx,y.tx)&&eq(x.ip_proof,y.ip_proof);}
static void gen(Bullet::PP&o){ o.RANGE_LEN=1<<V::rnd(3); o.LOG_RANGE_LEN=V::rnd(4); o.MAX_AGG_NUM=1+V::rnd(3); gen(o.g);gen(o.h);gen(o.u); o.vec_g=gpts(o.RANGE_LEN*o.MAX_AGG_NUM); o.vec_h=gpts(o.RANGE_LEN*o.MAX_AGG_NUM); }
static bool eq(const Bullet::PP&x,const Bullet::PP&y){return x.RANGE_LEN==y.RANGE_LEN&&x.LOG_RANGE_LEN==y.LOG_RANGE_LEN&&x.MAX_AGG_NUM==y.MAX_AGG_NUM&&eq(x.g,y.g)&&eq(x.h,y.h)&&eq(x.u,y.u)&&eq(x.vec_g,y.vec_g)&&eq(x.vec_h,y.vec_h);}
ST1(NPOT::PP,g)
static void gen(uint8_t&o){o=V::rnd(256);}
ST3(IKNPOTE::PP,malicious,baseOT,BASE_LEN) ST3(ALSZOTE::PP,malicious,baseOT,BASE_LEN) ST2(DDHOPRF::PP,KEY_SIZE,RANGE_SIZE)
static void gen(cwPRFPSI::PP&o){ size_t*p=(size_t*)&o; for(size_t i=0;i<sizeof(o)/8;i++) gen(p[i]); } static bool eq(const cwPRFPSI::PP&a,const cwPRFPSI::PP&b){return !memcmp(&a,&b,sizeof a);}
static void gen(cwPRFmqRPMT::PP&o){ gen(o.statistical_security_parameter);gen(o.LOG_SERVER_LEN);gen(o.SERVER_LEN);gen(o.LOG_CLIENT_LEN);gen(o.CLIENT_LEN);} static bool eq(const cwPRFmqRPMT::PP&a,const cwPRFmqRPMT::PP&b){return a.statistical_security_parameter==b.statistical_security_parameter&&a.LOG_SERVER_LEN==b.LOG_SERVER_LEN&&a.SERVER_LEN==b.SERVER_LEN&&a.LOG_CLIENT_LEN==b.LOG_CLIENT_LEN&&a.CLIENT_LEN==b.CLIENT_LEN;}
static void gen(rrPKEmqRPMT::PP&o){ gen(o.statistical_security_parameter);gen(o.LOG_SERVER_LEN);gen(o.SERVER_LEN);gen(o.LOG_CLIENT_LEN);gen(o.CLIENT_LEN);} static bool eq(const rrPKEmqRPMT::PP&a,const rrPKEmqRPMT::PP&b){return a.statistical_security_parameter==b.statistical_security_parameter&&a.LOG_SERVER_LEN==b.LOG_SERVER_LEN&&a.SERVER_LEN==b.SERVER_LEN&&a.LOG_CLIENT_LEN==b.LOG_CLIENT_LEN&&a.CLIENT_LEN==b.CLIENT_LEN;}
#define PSO(N) static void gen(N::PP&o){gen(o.ote_part);gen(o.mqrpmt_part);gen(o.LOG_SENDER_ITEM_NUM);gen(o.LOG_RECEIVER_ITEM_NUM);gen(o.SENDER_ITEM_NUM);gen(o.RECEIVER_ITEM_NUM);} \
 static bool eq(const N::PP&a,const N::PP&b){return eq(a.ote_part,b.ote_part)&&eq(a.mqrpmt_part,b.mqrpmt_part)&&a.LOG_SENDER_ITEM_NUM==b.LOG_SENDER_ITEM_NUM&&a.LOG_RECEIVER_ITEM_NUM==b.LOG_RECEIVER_ITEM_NUM&&a.SENDER_ITEM_NUM==b.SENDER_ITEM_NUM&&a.RECEIVER_ITEM_NUM==b.RECEIVER_ITEM_NUM;}
PSO(mqRPMTPSI) PSO(mqRPMTPSU) PSO(mqRPMTPSIcard)
static void gen(mqRPMTPSIcardsum::PP&o){gen(o.ote_part);gen(o.mqrpmt_part);gen(o.LOG_SENDER_ITEM_NUM);gen(o.LOG_RECEIVER_ITEM_NUM);gen(o.SENDER_ITEM_NUM);gen(o.RECEIVER_ITEM_NUM);gen(o.LOG_SUM_BOUND);gen(o.LOG_VALUE_BOUND);}
static bool eq(const mqRPMTPSIcardsum::PP&a,const mqRPMTPSIcardsum::PP&b){return eq(a.ote_part,b.ote_part)&&eq(a.mqrpmt_part,b.mqrpmt_part)&&a.LOG_SENDER_ITEM_NUM==b.LOG_SENDER_ITEM_NUM&&a.LOG_RECEIVER_ITEM_NUM==b.LOG_RECEIVER_ITEM_NUM&&a.SENDER_ITEM_NUM==b.SENDER_ITEM_NUM&&a.RECEIVER_ITEM_NUM==b.RECEIVER_ITEM_NUM&&a.LOG_SUM_BOUND==b.LOG_SUM_BOUND&&a.LOG_VALUE_BOUND==b.LOG_VALUE_BOUND;}
static void gen(OTEOPRF::PP&o){gen(o.KEY_SIZE);gen(o.RANGE_SIZE);gen(o.STATISTICAL_SECURITY_PARAMETER);gen(o.INPUT_NUM);gen(o.MATRIX_HEIGHT);gen(o.LOG_MATRIX_HEIGHT);gen(o.MATRIX_WIDTH);gen(o.BATCH_SIZE);gen(o.common_seed);gen(o.npot_part);}
static bool eq(const OTEOPRF::PP&a,const OTEOPRF::PP&b){return a.KEY_SIZE==b.KEY_SIZE&&a.RANGE_SIZE==b.RANGE_SIZE&&a.STATISTICAL_SECURITY_PARAMETER==b.STATISTICAL_SECURITY_PARAMETER&&a.INPUT_NUM==b.INPUT_NUM&&a.MATRIX_HEIGHT==b.MATRIX_HEIGHT&&a.LOG_MATRIX_HEIGHT==b.LOG_MATRIX_HEIGHT&&a.MATRIX_WIDTH==b.MATRIX_WIDTH&&a.BATCH_SIZE==b.BATCH_SIZE&&eq(a.common_seed,b.common_seed)&&eq(a.npot_part,b.npot_part);}

// the operators are found by argument-dependent lookup as in user code
namespace W { template<class T> void put(std::ofstream&f,T&o){ f<<o; } template<class T> void get(std::ifstream&f,T&o){ f>>o; } 
 inline void put(std::ofstream&f,block&o){ Block::operator<<(f,o);} inline void get(std::ifstream&f,block&o){ Block::operator>>(f,o);} 
 inline void put(std::ofstream&f,size_t&o){ Serialization::operator<<(f,o);} inline void get(std::ifstream&f,size_t&o){ Serialization::operator>>(f,o);}
 inline void put(std::ofstream&f,std::string&o){ Serialization::operator<<(f,o);} inline void get(std::ifstream&f,std::string&o){ Serialization::operator>>(f,o);} }
template<class T> static void seq(const char*nm,int N){
    for(int it=0;it<N;it++){
        size_t n=1+V::rnd(4); std::vector<T> v(n); for(auto&x:v) gen(x); BigInt s=gbn(); 
        { std::ofstream f("t.bin",std::ios::binary); for(auto&x:v) W::put(f,x); W::put(f,s); }
        std::ifstream f("t.bin",std::ios::binary); bool ok=true; for(size_t i=0;i<n;i++){ T y; W::get(f,y); ok=ok&&eq(y,v[i]); }
        CHECK(ok,nm,"object differs after write and read"); BigInt s2; W::get(f,s2); CHECK(f.good()&&s==s2,nm,"next object in the stream differs"); CHECK(f.peek()==EOF,nm,"bytes left over");
        // reading into an object that already holds something
        std::ifstream g("t.bin",std::ios::binary); T y; gen(y); W::get(g,y); CHECK(eq(y,v[0]),nm,"object differs after reading over an old one");
    }
}
static int M(){ return V::S().thorough?400:25; }
CASE("base"){ seq<size_t>("size_t",M()); seq<BigInt>("BigInt",M()); seq<ECPoint>("ECPoint",M()); seq<std::vector<BigInt>>("vector<BigInt>",M()); seq<std::vector<ECPoint>>("vector<ECPoint>",M()); seq<std::string>("string",M()); seq<block>("block",M()); seq<AES::Key>("AES::Key",M()); seq<PRG::Seed>("PRG::Seed",M()); seq<EC25519Point>("EC25519Point",M()); }
CASE("pod-vectors"){ for(int it=0;it<M();it++){ size_t n=V::rnd(40),m=V::rnd(40); std::vector<block> a(n); for(auto&x:a) x=gblk(); std::vector<uint8_t> b(m); for(auto&x:b) x=V::rnd(256); size_t z=gsz();
    { std::ofstream f("t.bin",std::ios::binary); Block::operator<<(f,a); Serialization::operator<<(f,b); W::put(f,z);} std::ifstream f("t.bin",std::ios::binary); std::vector<block> a2(n); std::vector<uint8_t> b2(m); size_t z2; Block::operator>>(f,a2); Serialization::operator>>(f,b2); W::get(f,z2); CHECK(eq(a,a2)&&b==b2&&z==z2,"pod","vector of blocks/bytes differs"); } }
CASE("pke"){ seq<ElGamal::PP>("ElGamal::PP",M()); seq<ElGamal::CT>("ElGamal::CT",M()); seq<ExponentialElGamal::PP>("Exp::PP",M()); seq<ExponentialElGamal::CT>("Exp::CT",M()); seq<ExponentialElGamal::MRCT>("Exp::MRCT",M()); seq<TwistedExponentialElGamal::PP>("Twisted::PP",M()); seq<TwistedExponentialElGamal::CT>("Twisted::CT",M()); seq<TwistedExponentialElGamal::MRCT>("Twisted::MRCT",M()); }
CASE("proofs"){ seq<Schnorr::PP>("Schnorr::PP",M()); seq<Schnorr::SIG>("Schnorr::SIG",M()); seq<DLOGKnowledge::Proof>("DLOGKnowledge",M()); seq<DLOGEquality::Proof>("DLOGEquality",M()); seq<PlaintextKnowledge::Proof>("PlaintextKnowledge",M()); seq<PlaintextEquality::Proof>("PlaintextEquality",M()); seq<InnerProduct::Proof>("InnerProduct",M()); seq<Bullet::PP>("Bullet::PP",M()/2); seq<Bullet::Proof>("Bullet::Proof",M()); }
CASE("mpc"){ seq<NPOT::PP>("NPOT",M()); seq<IKNPOTE::PP>("IKNPOTE",M()); seq<ALSZOTE::PP>("ALSZOTE",M()); seq<DDHOPRF::PP>("DDHOPRF",M()); seq<cwPRFPSI::PP>("cwPRFPSI",M()); seq<cwPRFmqRPMT::PP>("cwPRFmqRPMT",M()); seq<rrPKEmqRPMT::PP>("rrPKEmqRPMT",M()); seq<mqRPMTPSI::PP>("mqRPMTPSI",M()); seq<mqRPMTPSU::PP>("mqRPMTPSU",M()); seq<mqRPMTPSIcard::PP>("mqRPMTPSIcard",M()); seq<mqRPMTPSIcardsum::PP>("mqRPMTPSIcardsum",M()); seq<OTEOPRF::PP>("OTEOPRF",M()); }
#define SF(N) for(int i=0;i<M();i++){ N::PP a,b; gen(a); N::SavePP(a,"pp.bin"); N::FetchPP(b,"pp.bin"); CHECK(eq(a,b),#N,"parameters differ after SavePP/FetchPP"); }
CASE("savefetch"){ SF(NPOT) SF(IKNPOTE) SF(ALSZOTE) SF(DDHOPRF) SF(cwPRFPSI) SF(cwPRFmqRPMT) SF(rrPKEmqRPMT) SF(mqRPMTPSI) SF(mqRPMTPSU) SF(mqRPMTPSIcard) SF(mqRPMTPSIcardsum) SF(OTEOPRF) }
CASE("private-id"){ for(size_t a: {2,5}) for(size_t b: {3,6}){ auto p=mqRPMTPrivateID::Setup(a>b?a:b,128,40,a,b); mqRPMTPrivateID::PP q; mqRPMTPrivateID::SavePP(p,"pp.bin"); mqRPMTPrivateID::FetchPP(q,"pp.bin");
    CHECK(eq(p.psu_part,q.psu_part)&&p.LOG_SENDER_ITEM_NUM==q.LOG_SENDER_ITEM_NUM&&p.LOG_RECEIVER_ITEM_NUM==q.LOG_RECEIVER_ITEM_NUM&&p.SENDER_ITEM_NUM==q.SENDER_ITEM_NUM&&p.RECEIVER_ITEM_NUM==q.RECEIVER_ITEM_NUM,"private-id","parameters differ");
    CHECK(p.oprf_part.INPUT_NUM==q.oprf_part.INPUT_NUM&&p.oprf_part.RANGE_SIZE==q.oprf_part.RANGE_SIZE&&p.oprf_part.KEY_SIZE==q.oprf_part.KEY_SIZE,"private-id","OPRF parameters differ"); } }
CASE("adcp"){ for(int it=0;it<M();it++){
    ADCP::SP s,s2; gen(s.ska); ADCP::SaveSP(s,"sp"); ADCP::FetchSP(s2,"sp"); CHECK(s.ska==s2.ska,"SP","differs");
    ADCP::PP p,p2; gen(p.SN_LEN);gen(p.MAX_RECEIVER_NUM);gen(p.MAXIMUM_COINS);gen(p.bullet_part);gen(p.enc_part);gen(p.pka); ADCP::SavePP(p,"pp"); ADCP::FetchPP(p2,"pp");
    CHECK(p.SN_LEN==p2.SN_LEN&&p.MAX_RECEIVER_NUM==p2.MAX_RECEIVER_NUM&&eq(p.MAXIMUM_COINS,p2.MAXIMUM_COINS)&&eq(p.bullet_part,p2.bullet_part)&&eq(p.enc_part,p2.enc_part)&&eq(p.pka,p2.pka),"PP","differs");
    ADCP::Account a,a2; gen(a.identity);gen(a.pk);gen(a.sk);gen(a.balance_ct);gen(a.m);gen(a.sn); ADCP::SaveAccount(a,"acc"); ADCP::FetchAccount(a2,"acc");
    CHECK(a.identity==a2.identity&&eq(a.pk,a2.pk)&&eq(a.sk,a2.sk)&&eq(a.balance_ct,a2.balance_ct)&&eq(a.m,a2.m)&&eq(a.sn,a2.sn),"Account","differs");
    ADCP::ToOneCTx t,t2; gen(t.sn);gen(t.pks);gen(t.pkr);gen(t.transfer_ct);gen(t.plaintext_equality_proof);gen(t.bullet_right_solvent_proof);gen(t.refresh_sender_updated_balance_ct);gen(t.plaintext_knowledge_proof);gen(t.correct_refresh_proof);
    ADCP::SaveCTx(t,"ctx"); ADCP::FetchCTx(t2,"ctx");
    CHECK(eq(t.sn,t2.sn)&&eq(t.pks,t2.pks)&&eq(t.pkr,t2.pkr)&&eq(t.transfer_ct,t2.transfer_ct)&&eq(t.plaintext_equality_proof,t2.plaintext_equality_proof)&&eq(t.bullet_right_solvent_proof,t2.bullet_right_solvent_proof)&&eq(t.refresh_sender_updated_balance_ct,t2.refresh_sender_updated_balance_ct)&&eq(t.plaintext_knowledge_proof,t2.plaintext_knowledge_proof)&&eq(t.correct_refresh_proof,t2.correct_refresh_proof),"CTx","differs");
} }
// byte strings: different values, different strings
template<class T,class FN> static void inj(const char*nm,FN f){ for(int it=0;it<M()*2;it++){ T a,b; gen(a); gen(b); std::string x=f(a),y=f(b); CHECK(x==f(a),nm,"byte string not deterministic"); CHECK(eq(a,b)||x!=y,nm,"two values, one byte string"); } }
template<class T,class X,class FN> static void dep(const char*nm,X T::*m,FN f){ for(int it=0;it<10;it++){ T a; gen(a); std::string x=f(a); T b=a; for(int k=0;k<20&&eq(b.*m,a.*m);k++) gen(b.*m); if(eq(b.*m,a.*m)) continue; CHECK(f(b)!=x,nm,"byte string ignores a component"); } }
CASE("bytestrings"){
    for(int it=0;it<M()*4;it++){ BigInt a=gbn(),b=gbn(); CHECK(a==b||a.ToByteString()!=b.ToByteString(),"BigInt","two numbers, one byte string"); BigInt c; c.FromByteString(a.ToByteString()); CHECK(c==a,"BigInt","byte string does not read back");
        ECPoint A=gpt(),B=gpt(); CHECK(A==B||A.ToByteString()!=B.ToByteString(),"ECPoint","two points, one byte string"); }
    // boundaries between adjacent numbers
    { PlaintextKnowledge::Proof p,q; gen(p); q=p; p.z1=BigInt(258); p.z2=BigInt(3); q.z1=BigInt(1); q.z2=BigInt(515); CHECK(PlaintextKnowledge::ProofToByteString(p)!=PlaintextKnowledge::ProofToByteString(q),"boundary","two proofs, one byte string"); }
    inj<ExponentialElGamal::CT>("Exp::CT",ExponentialElGamal::CTToByteString); inj<ExponentialElGamal::MRCT>("Exp::MRCT",ExponentialElGamal::MRCTToByteString); inj<TwistedExponentialElGamal::CT>("Twisted::CT",TwistedExponentialElGamal::CTToByteString); inj<TwistedExponentialElGamal::MRCT>("Twisted::MRCT",TwistedExponentialElGamal::MRCTToByteString);
    inj<DLOGKnowledge::Proof>("DLOGKnowledge",DLOGKnowledge::ProofToByteString); inj<DLOGEquality::Proof>("DLOGEquality",DLOGEquality::ProofToByteString); inj<PlaintextKnowledge::Proof>("PlaintextKnowledge",PlaintextKnowledge::ProofToByteString); 
    #define DP(T,m,f) dep<T>(#T "." #m,&T::m,f)
    DP(PlaintextEquality::Proof,vec_A,PlaintextEquality::ProofToByteString); DP(PlaintextEquality::Proof,B,PlaintextEquality::ProofToByteString); DP(PlaintextEquality::Proof,z,PlaintextEquality::ProofToByteString); DP(PlaintextEquality::Proof,t,PlaintextEquality::ProofToByteString);
    DP(DLOGKnowledge::Proof,A,DLOGKnowledge::ProofToByteString); DP(DLOGKnowledge::Proof,z,DLOGKnowledge::ProofToByteString); DP(DLOGEquality::Proof,A1,DLOGEquality::ProofToByteString); DP(DLOGEquality::Proof,A2,DLOGEquality::ProofToByteString); DP(DLOGEquality::Proof,z,DLOGEquality::ProofToByteString);
    DP(PlaintextKnowledge::Proof,A,PlaintextKnowledge::ProofToByteString); DP(PlaintextKnowledge::Proof,B,PlaintextKnowledge::ProofToByteString); DP(PlaintextKnowledge::Proof,z1,PlaintextKnowledge::ProofToByteString); DP(PlaintextKnowledge::Proof,z2,PlaintextKnowledge::ProofToByteString);
    DP(InnerProduct::Proof,vec_L,InnerProduct::ProofToByteString); DP(InnerProduct::Proof,vec_R,InnerProduct::ProofToByteString); DP(InnerProduct::Proof,a,InnerProduct::ProofToByteString); DP(InnerProduct::Proof,b,InnerProduct::ProofToByteString);
    DP(Bullet::Proof,A,Bullet::ProofToByteString); DP(Bullet::Proof,S,Bullet::ProofToByteString); DP(Bullet::Proof,T1,Bullet::ProofToByteString); DP(Bullet::Proof,T2,Bullet::ProofToByteString); DP(Bullet::Proof,taux,Bullet::ProofToByteString); DP(Bullet::Proof,mu,Bullet::ProofToByteString); DP(Bullet::Proof,tx,Bullet::ProofToByteString); DP(Bullet::Proof,ip_proof,Bullet::ProofToByteString);
}
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
