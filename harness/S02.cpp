// S02: a blob of the opposite byte order restores the same content.
// BOUND: contents made by any 2 (thorough: 3) of the 16 steps of S01 with any values; the blob turned into the opposite byte order by the harness from the published blob format, restored into a fresh CAS or one with other content
// BOUND: also contents of 5 views, 60 structures with strings of up to 390 units, arrays of every kind with 19..73 elements, 24 annotations, index entries in every index (one place of each kind any value; four sizes)
// OUTSIDE: other contents; damaged blobs; as S01 otherwise
#include "ser.hpp"
static Dump da_,db_;
static void rev(unsigned char* p,int w){ for(int i=0;i<w/2;++i){ unsigned char c=p[i]; p[i]=p[w-1-i]; p[w-1-i]=c; } }
// key, version, then: cells, string units (padded to cells), string references, index entries, bytes (padded), 16-bit (padded), 64-bit
static size_t swapAll(unsigned char* b,size_t n){ static const int W[]={4,2,4,4,1,2,8}; size_t o=8; rev(b,4); rev(b+4,4); for(int k=0;k<7;++k){ int32_t c; memcpy(&c,b+o,4); rev(b+o,4); o+=4; for(int i=0;i<c;++i) rev(b+o+(size_t)i*W[k],W[k]); o+=((size_t)c*W[k]+3)/4*4; } SX_ASSERT(o==n,"the blob has the published format"); return o; }
static void go(int n,bool use){ using namespace uima::internal; bas_=g_cas; nall_=0; for(int i=0;i<n;++i) act(sx_choose(nm("a",i),NACT),i); root(); dump(da_,g_cas); CAS* t=hCreate(g_def); if(use) t->setDocumentText(UnicodeStringRef((UChar*)u"previous",8));
  CASSerializer ser(false); CASDeserializer de; size_t z=ser.getBlobSize(*g_cas); unsigned char* b=(unsigned char*)malloc(z); memset(b,0,z); ser.getBlob(*g_cas,b,z); SX_ASSERT(memcmp(b,"AMIU",4)==0,"key"); swapAll(b,z); SX_ASSERT(memcmp(b,"UIMA",4)==0,"opposite key"); de.deserializeBlob(b,*t); free(b); dump(db_,t); same(da_,db_,"the restored CAS has the same content"); after(t); dump(db_,t); same(da_,db_,"later creations leave it alone"); symx_reached("restored"); }
SYMX_SCENARIO_SETUP(swapped,serSetup){ go(symx_thorough()?3:2,false); }
SYMX_SCENARIO_SETUP(swapped_used,serSetup){ go(symx_thorough()?2:1,true); }
SYMX_SCENARIO_SETUP(larger,serSetup){ using namespace uima::internal; bigFill(sx_choose("sz",4)); bigDump(0,g_cas); CAS* t=hCreate(g_def); if(sx_choose("used",2)) t->setDocumentText(UnicodeStringRef((UChar*)u"previous",8)); CASSerializer ser(false); CASDeserializer de; size_t z=ser.getBlobSize(*g_cas); unsigned char* b=(unsigned char*)malloc(z); memset(b,0,z); ser.getBlob(*g_cas,b,z); swapAll(b,z); de.deserializeBlob(b,*t); free(b); bigDump(1,t); bigSame("the restored CAS has the same larger content"); after(t); bigDump(1,t); bigSame("later creations leave it alone"); symx_reached("larger"); }
