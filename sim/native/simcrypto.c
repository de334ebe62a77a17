/* Portable C for the primitives that keri gets from blake3 / libsodium and that
 * neither hashlib nor libcrypto offers: BLAKE3 (hash mode, XOF), Argon2id v1.3,
 * HSalsa20 / XSalsa20.  Written from the public specifications. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

/* ---------------------------------------------------------------- BLAKE3 */
static const u32 IV3[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,
                           0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const u8 PERM3[16] = {2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
enum { CHUNK_START=1, CHUNK_END=2, PARENT=4, ROOT=8 };
static u32 ror32(u32 x,int n){return (x>>n)|(x<<(32-n));}
static u32 ld32(const u8*p){return (u32)p[0]|(u32)p[1]<<8|(u32)p[2]<<16|(u32)p[3]<<24;}
static void st32(u8*p,u32 v){p[0]=v;p[1]=v>>8;p[2]=v>>16;p[3]=v>>24;}
#define G3(a,b,c,d,x,y) do{ \
  s[a]=s[a]+s[b]+(x); s[d]=ror32(s[d]^s[a],16); s[c]+=s[d]; s[b]=ror32(s[b]^s[c],12); \
  s[a]=s[a]+s[b]+(y); s[d]=ror32(s[d]^s[a],8);  s[c]+=s[d]; s[b]=ror32(s[b]^s[c],7);}while(0)
static void compress3(const u32 cv[8],const u32 block[16],u64 ctr,u32 blen,u32 flags,u32 out[16]){
  u32 s[16],m[16],t[16]; int r,i;
  for(i=0;i<8;i++) s[i]=cv[i];
  for(i=0;i<4;i++) s[8+i]=IV3[i];
  s[12]=(u32)ctr; s[13]=(u32)(ctr>>32); s[14]=blen; s[15]=flags;
  memcpy(m,block,64);
  for(r=0;r<7;r++){
    G3(0,4,8,12,m[0],m[1]); G3(1,5,9,13,m[2],m[3]); G3(2,6,10,14,m[4],m[5]); G3(3,7,11,15,m[6],m[7]);
    G3(0,5,10,15,m[8],m[9]); G3(1,6,11,12,m[10],m[11]); G3(2,7,8,13,m[12],m[13]); G3(3,4,9,14,m[14],m[15]);
    for(i=0;i<16;i++) t[i]=m[PERM3[i]];
    memcpy(m,t,64);
  }
  for(i=0;i<8;i++){ out[i]=s[i]^s[i+8]; out[i+8]=s[i+8]^cv[i]; }
}
typedef struct { u32 cv[8]; u32 block[16]; u64 ctr; u32 blen, flags; } out3;
static void loadblock(const u8*p,size_t n,u32 b[16]){
  u8 buf[64]; int i; memset(buf,0,64); memcpy(buf,p,n);
  for(i=0;i<16;i++) b[i]=ld32(buf+4*i);
}
static void chunk3(const u8*p,size_t n,u64 idx,out3*o){
  u32 cv[8],full[16],b[16]; u32 start=CHUNK_START; memcpy(cv,IV3,32);
  while(n>64){ loadblock(p,64,b); compress3(cv,b,idx,64,start,full); memcpy(cv,full,32); start=0; p+=64; n-=64; }
  memcpy(o->cv,cv,32); loadblock(p,n,o->block); o->ctr=idx; o->blen=(u32)n; o->flags=start|CHUNK_END;
}
static void tree3(const u8*p,size_t n,u64 idx,out3*o){
  if(n<=1024){ chunk3(p,n,idx,o); return; }
  size_t chunks=(n-1)/1024, left=1; u32 f[16]; out3 l,r; /* full chunks excluding the last byte */
  while(left*2<=chunks) left*=2;
  tree3(p,left*1024,idx,&l); tree3(p+left*1024,n-left*1024,idx+left,&r);
  compress3(l.cv,l.block,l.ctr,l.blen,l.flags,f); memcpy(o->block,f,32);
  compress3(r.cv,r.block,r.ctr,r.blen,r.flags,f); memcpy(o->block+8,f,32);
  memcpy(o->cv,IV3,32); o->ctr=0; o->blen=64; o->flags=PARENT;
}
void sim_blake3(const u8*p,size_t n,u8*out,size_t outlen){
  out3 o; u64 c=0; u32 f[16]; u8 buf[64]; int i; tree3(p,n,0,&o);
  while(outlen){ compress3(o.cv,o.block,c++,o.blen,o.flags|ROOT,f);
    for(i=0;i<16;i++) st32(buf+4*i,f[i]);
    size_t k=outlen<64?outlen:64; memcpy(out,buf,k); out+=k; outlen-=k; }
}

/* --------------------------------------------------------------- BLAKE2b */
static const u64 IV2[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,
 0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const u8 SIG[12][16]={
{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},
{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static u64 ror64(u64 x,int n){return (x>>n)|(x<<(64-n));}
static u64 ld64(const u8*p){return (u64)ld32(p)|(u64)ld32(p+4)<<32;}
static void st64(u8*p,u64 v){st32(p,(u32)v);st32(p+4,(u32)(v>>32));}
typedef struct { u64 h[8]; u64 t; u8 buf[128]; size_t n; size_t outlen; } b2;
static void b2c(b2*s,int last){
  u64 v[16],m[16]; int i,r;
  for(i=0;i<16;i++) m[i]=ld64(s->buf+8*i);
  for(i=0;i<8;i++){v[i]=s->h[i]; v[i+8]=IV2[i];}
  v[12]^=s->t; if(last) v[14]=~v[14];
#define G2(a,b,c,d,x,y) do{v[a]=v[a]+v[b]+(x);v[d]=ror64(v[d]^v[a],32);v[c]+=v[d];v[b]=ror64(v[b]^v[c],24);\
 v[a]=v[a]+v[b]+(y);v[d]=ror64(v[d]^v[a],16);v[c]+=v[d];v[b]=ror64(v[b]^v[c],63);}while(0)
  for(r=0;r<12;r++){ const u8*g=SIG[r];
   G2(0,4,8,12,m[g[0]],m[g[1]]);G2(1,5,9,13,m[g[2]],m[g[3]]);G2(2,6,10,14,m[g[4]],m[g[5]]);G2(3,7,11,15,m[g[6]],m[g[7]]);
   G2(0,5,10,15,m[g[8]],m[g[9]]);G2(1,6,11,12,m[g[10]],m[g[11]]);G2(2,7,8,13,m[g[12]],m[g[13]]);G2(3,4,9,14,m[g[14]],m[g[15]]);}
  for(i=0;i<8;i++) s->h[i]^=v[i]^v[i+8];
}
static void b2init(b2*s,size_t outlen){memcpy(s->h,IV2,64);s->h[0]^=0x01010000^outlen;s->t=0;s->n=0;s->outlen=outlen;}
static void b2upd(b2*s,const void*pp,size_t n){const u8*p=pp;
  while(n){ if(s->n==128){s->t+=128;b2c(s,0);s->n=0;} size_t k=128-s->n; if(k>n)k=n; memcpy(s->buf+s->n,p,k); s->n+=k;p+=k;n-=k;}}
static void b2fin(b2*s,u8*out){u8 o[64];int i; s->t+=s->n; memset(s->buf+s->n,0,128-s->n); b2c(s,1);
  for(i=0;i<8;i++)st64(o+8*i,s->h[i]); memcpy(out,o,s->outlen);}

/* -------------------------------------------------------------- Argon2id */
typedef struct { u64 v[128]; } blk;
static u64 fB(u64 x,u64 y){return x+y+2*(u64)(u32)x*(u64)(u32)y;}
#define GA(a,b,c,d) do{a=fB(a,b);d=ror64(d^a,32);c=fB(c,d);b=ror64(b^c,24);a=fB(a,b);d=ror64(d^a,16);c=fB(c,d);b=ror64(b^c,63);}while(0)
#define PA(v0,v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11,v12,v13,v14,v15) do{ \
 GA(v0,v4,v8,v12);GA(v1,v5,v9,v13);GA(v2,v6,v10,v14);GA(v3,v7,v11,v15);\
 GA(v0,v5,v10,v15);GA(v1,v6,v11,v12);GA(v2,v7,v8,v13);GA(v3,v4,v9,v14);}while(0)
static void fillblk(const blk*p,const blk*r,blk*n,int withxor){
  blk R,Z; int i; for(i=0;i<128;i++) R.v[i]=p->v[i]^r->v[i];
  Z=R; if(withxor) for(i=0;i<128;i++) Z.v[i]^=n->v[i];
  for(i=0;i<8;i++){u64*v=R.v+16*i; PA(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15]);}
  for(i=0;i<8;i++){u64*v=R.v+2*i; PA(v[0],v[1],v[16],v[17],v[32],v[33],v[48],v[49],v[64],v[65],v[80],v[81],v[96],v[97],v[112],v[113]);}
  for(i=0;i<128;i++) n->v[i]=Z.v[i]^R.v[i];
}
static void hlong(u8*out,u32 outlen,const void*in,size_t inlen){
  u8 l[4]; b2 s; st32(l,outlen);
  if(outlen<=64){b2init(&s,outlen);b2upd(&s,l,4);b2upd(&s,in,inlen);b2fin(&s,out);return;}
  u8 v[64],w[64]; b2init(&s,64);b2upd(&s,l,4);b2upd(&s,in,inlen);b2fin(&s,v); memcpy(out,v,32); out+=32; u32 left=outlen-32;
  while(left>64){memcpy(w,v,64);b2init(&s,64);b2upd(&s,w,64);b2fin(&s,v);memcpy(out,v,32);out+=32;left-=32;}
  memcpy(w,v,64);b2init(&s,left);b2upd(&s,w,64);b2fin(&s,out);
}
int sim_argon2id(u8*out,u32 outlen,const u8*pwd,u32 plen,const u8*salt,u32 slen,u32 t,u32 mkib){
  u8 h0[72],x[4]; b2 s; u32 q,seg,i,sl,pass; blk*B;
  u32 m=mkib<8?8:mkib; q=4*(m/4); seg=q/4;
  b2init(&s,64);
#define U(v) do{st32(x,(v));b2upd(&s,x,4);}while(0)
  U(1);U(outlen);U(mkib<8?8:mkib);U(t);U(0x13);U(2);U(plen);b2upd(&s,pwd,plen);U(slen);b2upd(&s,salt,slen);U(0);U(0);
  b2fin(&s,h0);
  B=malloc((size_t)q*1024); if(!B) return -1;
  u8 tmp[1024];
  for(i=0;i<2;i++){ st32(h0+64,i);st32(h0+68,0);hlong(tmp,1024,h0,72); for(int k=0;k<128;k++)B[i].v[k]=ld64(tmp+8*k);}
  for(pass=0;pass<t;pass++) for(sl=0;sl<4;sl++){
    blk zero,inp,addr; int di=(pass==0&&sl<2);
    memset(&zero,0,sizeof zero); memset(&inp,0,sizeof inp); memset(&addr,0,sizeof addr);
    if(di){inp.v[0]=pass;inp.v[1]=0;inp.v[2]=sl;inp.v[3]=q;inp.v[4]=t;inp.v[5]=2;}
    u32 start=0;
    if(pass==0&&sl==0){ start=2; if(di){inp.v[6]++;fillblk(&zero,&inp,&addr,0);fillblk(&zero,&addr,&addr,0);} }
    for(i=start;i<seg;i++){
      u32 cur=sl*seg+i, prev=cur==0?q-1:cur-1; u64 pr;
      if(di){ if(i%128==0){inp.v[6]++;fillblk(&zero,&inp,&addr,0);fillblk(&zero,&addr,&addr,0);} pr=addr.v[i%128]; }
      else pr=B[prev].v[0];
      u32 area; /* single lane: same lane always */
      if(pass==0) area = sl==0? i-1 : sl*seg+i-1; else area=q-seg+i-1;
      u64 rel=(u32)pr; rel=rel*rel>>32; rel=area-1-((u64)area*rel>>32);
      u32 sp=0; if(pass!=0) sp = sl==3?0:(sl+1)*seg;
      u32 ref=(u32)((sp+rel)%q);
      fillblk(&B[prev],&B[ref],&B[cur],pass!=0);
    }
  }
  for(int k=0;k<128;k++) st64(tmp+8*k,B[q-1].v[k]);
  hlong(out,outlen,tmp,1024); free(B); return 0;
}

/* --------------------------------------------------------------- Salsa20 */
static u32 rol32(u32 x,int n){return (x<<n)|(x>>(32-n));}
static void salsarounds(u32 x[16]){int i; for(i=0;i<10;i++){
#define Q(a,b,c,d) x[b]^=rol32(x[a]+x[d],7);x[c]^=rol32(x[b]+x[a],9);x[d]^=rol32(x[c]+x[b],13);x[a]^=rol32(x[d]+x[c],18)
  Q(0,4,8,12);Q(5,9,13,1);Q(10,14,2,6);Q(15,3,7,11);
  Q(0,1,2,3);Q(5,6,7,4);Q(10,11,8,9);Q(15,12,13,14);}}
static void setup(u32 x[16],const u8 k[32],const u8 in[16]){
  x[0]=0x61707865;x[5]=0x3320646e;x[10]=0x79622d32;x[15]=0x6b206574;
  for(int i=0;i<4;i++){x[1+i]=ld32(k+4*i);x[11+i]=ld32(k+16+4*i);x[6+i]=ld32(in+4*i);}}
void sim_hsalsa20(u8 out[32],const u8 in[16],const u8 k[32]){
  u32 x[16]; setup(x,k,in); salsarounds(x);
  st32(out,x[0]);st32(out+4,x[5]);st32(out+8,x[10]);st32(out+12,x[15]);
  for(int i=0;i<4;i++) st32(out+16+4*i,x[6+i]);}
void sim_xsalsa20_xor(u8*out,const u8*m,size_t n,const u8 nonce[24],const u8 k[32]){
  u8 sub[32],in[16],blkb[64]; u32 x[16],y[16]; u64 c=0; sim_hsalsa20(sub,nonce,k); memcpy(in,nonce+16,8);
  while(n){ st64(in+8,c++); setup(x,sub,in); memcpy(y,x,64); salsarounds(x);
    for(int i=0;i<16;i++) st32(blkb+4*i,x[i]+y[i]);
    size_t l=n<64?n:64; for(size_t i=0;i<l;i++) out[i]=m[i]^blkb[i]; out+=l;m+=l;n-=l; }
}
