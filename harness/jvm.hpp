// A stand-in Java VM: objects, arrays and strings with any contents; checks the rules native code has to follow.
#ifndef JVM_HPP
#define JVM_HPP
#include <jni.h>
#include <cstdarg>
#include <uima/jni.hpp>
#include <uima/jni_utils.hpp>
enum JK { JK_OBJ=1,JK_INT,JK_BYTE,JK_SHORT,JK_LONG,JK_ARR,JK_STR,JK_INTEGER,JK_EXC,JK_CLASS };
struct J : public _jobject { int k; int n; void* d; J** o; jlong field; J* msg; int frame; const char* name; J(int k_,int n_):k(k_),n(n_),d(0),o(0),field(0),msg(0),frame(0),name(0){} };
static J* jp(jobject o){ return (J*)o; }
static J* j_exc; static int j_frames,j_open,j_thrown,j_copy,j_attached,j_levels,j_logLevel=2; static J* j_logged; static int j_nlog;
static void rule(bool ok,const char* what){ SX_ASSERT(ok,what); }
static void calm(){ rule(j_exc==0,"no call into Java while an exception is pending"); }
static int esz(int k){ return k==JK_INT?4:k==JK_BYTE?1:k==JK_LONG?8:2; }
static J* jNew(int k,int n){ J* a=new J(k,n); a->frame=j_frames; if(k>=JK_INT&&k<=JK_LONG||k==JK_STR){ a->d=malloc((size_t)n*esz(k)+1); memset(a->d,0,(size_t)n*esz(k)); } if(k==JK_ARR){ a->o=(J**)malloc(sizeof(J*)*(size_t)(n+1)); for(int i=0;i<n;++i) a->o[i]=0; } return a; }
static void live(J* o,int k){ rule(o!=0&&o->k==k,"the right kind of Java object"); rule(o->frame<=j_frames,"no reference of a popped frame is used"); }
static J* j_class(const char* n){ J* c=new J(JK_CLASS,0); c->name=n; return c; }
static bool jeq(const char* a,const char* b){ while(*a&&*a==*b){ ++a; ++b; } return *a==*b; }
static J g_clsEngine(JK_CLASS,0); static int j_pins; static void* j_buf[64]; static J* j_bufOf[64];
extern "C" {
static jclass fFindClass(JNIEnv*,const char* n){ calm(); return (jclass)j_class(n); }
static jclass fGetObjectClass(JNIEnv*,jobject o){ calm(); rule(o!=0,"an object"); g_clsEngine.name="engine"; return (jclass)(jobject)&g_clsEngine; }
static jfieldID fGetFieldID(JNIEnv*,jclass c,const char* n,const char* s){ calm(); rule(jp(c)->k==JK_CLASS&&jeq(n,"cppEnginePointer")&&jeq(s,"J"),"the field that exists"); return (jfieldID)8; }
static jmethodID fGetMethodID(JNIEnv*,jclass c,const char* n,const char* s){ calm(); const char* q=jp(c)->name; rule(jeq(n,"<init>")&&((jeq(q,"org/apache/uima/uimacpp/InternalTafException")&&jeq(s,"(Ljava/lang/String;J)V"))||(jeq(q,"java/lang/Integer")&&jeq(s,"(I)V"))),"a constructor that exists"); return (jmethodID)16; }
static jmethodID fGetStaticMethodID(JNIEnv*,jclass c,const char* n,const char* s){ calm(); rule(jeq(jp(c)->name,"org/apache/uima/uimacpp/UimacppAnalysisComponent")&&((jeq(n,"getLoggingLevel")&&jeq(s,"()I"))||(jeq(n,"log")&&jeq(s,"(ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;)V"))),"a static method that exists"); return (jmethodID)(jeq(n,"log")?32:24); }
static jlong fGetLongField(JNIEnv*,jobject o,jfieldID f){ calm(); live(jp(o),JK_OBJ); rule(f==(jfieldID)8,"field"); return jp(o)->field; }
static void fSetLongField(JNIEnv*,jobject o,jfieldID f,jlong v){ calm(); live(jp(o),JK_OBJ); rule(f==(jfieldID)8,"field"); jp(o)->field=v; }
static jstring fNewString(JNIEnv*,const jchar* p,jsize n){ calm(); J* s=jNew(JK_STR,n); if(n) memcpy(s->d,p,(size_t)n*2); return (jstring)(jobject)s; }
static jstring fNewStringUTF(JNIEnv*,const char* p){ calm(); int n=(int)strlen(p); J* s=jNew(JK_STR,n); for(int i=0;i<n;++i) ((jchar*)s->d)[i]=(jchar)p[i]; return (jstring)(jobject)s; }
static void* lend(J* a,jboolean* c){ calm(); rule(j_pins<64,"pins"); void* p=a->d; if(j_copy){ size_t b=(size_t)a->n*esz(a->k); p=malloc(b+1); if(b) memcpy(p,a->d,b); ++j_open; } if(c) *c=j_copy?JNI_TRUE:JNI_FALSE; j_buf[j_pins]=p; j_bufOf[j_pins++]=a; return p; }
static void take(J* a,void* p){ int i=-1; for(int q=0;q<j_pins;++q) if(j_buf[q]==p&&j_bufOf[q]==a) i=q; rule(i>=0,"what is released was lent by this object"); if(i<0) return; if(j_copy){ free(p); --j_open; } for(int q=i;q+1<j_pins;++q){ j_buf[q]=j_buf[q+1]; j_bufOf[q]=j_bufOf[q+1]; } --j_pins; }
static const jchar* fGetStringChars(JNIEnv*,jstring s,jboolean* c){ live(jp(s),JK_STR); return (const jchar*)lend(jp(s),c); }
static jsize fGetStringLength(JNIEnv*,jstring s){ calm(); live(jp(s),JK_STR); return jp(s)->n; }
static void fReleaseStringChars(JNIEnv*,jstring s,const jchar* p){ take(jp(s),(void*)p); }
static jobject fNewObjectV(JNIEnv*,jclass c,jmethodID,va_list a){ calm(); rule(jeq(jp(c)->name,"org/apache/uima/uimacpp/InternalTafException"),"exception class"); J* e=new J(JK_EXC,0); e->msg=jp(va_arg(a,jobject)); e->field=va_arg(a,jlong); return e; }
static jobject fNewObjectA(JNIEnv*,jclass c,jmethodID,const jvalue* a){ calm(); rule(jeq(jp(c)->name,"java/lang/Integer"),"integer class"); J* e=new J(JK_INTEGER,0); e->field=a[0].i; return e; }
static jint fThrow(JNIEnv*,jthrowable t){ rule(j_exc==0,"one exception"); live(jp(t),JK_EXC); j_exc=jp(t); ++j_thrown; return 0; }
static jthrowable fExceptionOccurred(JNIEnv*){ return (jthrowable)(jobject)j_exc; }
static void fExceptionClear(JNIEnv*){ j_exc=0; } static void fExceptionDescribe(JNIEnv*){}
static jobjectArray fNewObjectArray(JNIEnv*,jsize n,jclass c,jobject i){ calm(); rule(n>=0&&i==0&&jeq(jp(c)->name,"java/lang/String"),"an array of strings"); return (jobjectArray)(jobject)jNew(JK_ARR,n); }
static void fSetObjectArrayElement(JNIEnv*,jobjectArray a,jsize i,jobject v){ calm(); live(jp(a),JK_ARR); rule(i>=0&&i<jp(a)->n&&(v==0||jp(v)->k==JK_STR),"an element of the array"); jp(a)->o[i]=jp(v); }
static jobject fGetObjectArrayElement(JNIEnv*,jobjectArray a,jsize i){ calm(); live(jp(a),JK_ARR); rule(i>=0&&i<jp(a)->n,"an element of the array"); J* s=jp(a)->o[i]; return s; }
static jsize fGetArrayLength(JNIEnv*,jarray a){ calm(); rule(a!=0&&jp(a)->k>=JK_INT&&jp(a)->k<=JK_ARR,"an array"); return jp(a)->n; }
static void region(J* a,int k,jsize s,jsize n,const void* p){ calm(); live(a,k); rule(s>=0&&n>=0&&s+n<=a->n,"a region of the array"); memcpy((char*)a->d+(size_t)s*esz(k),p,(size_t)n*esz(k)); }
#define JARR(N,T,K) static T##Array fNew##N(JNIEnv*,jsize n){ calm(); rule(n>=0,"length"); return (T##Array)(jobject)jNew(K,n); } static void fSet##N(JNIEnv*,T##Array a,jsize s,jsize n,const T* p){ region(jp(a),K,s,n,p); } static T* fGet##N(JNIEnv*,T##Array a,jboolean* c){ live(jp(a),K); return (T*)lend(jp(a),c); } static void fRel##N(JNIEnv*,T##Array a,T* p,jint){ take(jp(a),p); }
JARR(Int,jint,JK_INT) JARR(Byte,jbyte,JK_BYTE) JARR(Short,jshort,JK_SHORT) JARR(Long,jlong,JK_LONG)
static jint fPush(JNIEnv*,jint n){ calm(); rule(n>=0,"frame size"); ++j_frames; return 0; } static jobject fPop(JNIEnv*,jobject){ rule(j_frames>0,"frames are paired"); --j_frames; return 0; }
static jobject fNewGlobalRef(JNIEnv*,jobject o){ return o; }
static jint fCallStaticIntMethodV(JNIEnv*,jclass,jmethodID m,va_list){ calm(); rule(m==(jmethodID)24,"method"); return j_logLevel; }
static void fCallStaticVoidMethodV(JNIEnv*,jclass,jmethodID m,va_list a){ calm(); rule(m==(jmethodID)32,"method"); int l=va_arg(a,jint); (void)va_arg(a,jobject); (void)va_arg(a,jobject); J* s=jp(va_arg(a,jobject)); live(s,JK_STR); rule(l>=1&&l<=3,"log level"); j_logged=s; ++j_nlog; }
static JNIEnv* theEnv(); static JavaVM j_vm; static JNIInvokeInterface_ j_inv;
static jint fGetJavaVM(JNIEnv*,JavaVM** v){ *v=&j_vm; return 0; }
static jint fAttach(JavaVM*,void** e,void*){ ++j_attached; *e=theEnv(); return 0; } static jint fDetach(JavaVM*){ --j_attached; return 0; }
}
static JNINativeInterface_ j_tbl; static JNIEnv j_env;
static JNIEnv* theEnv(){ static bool d=false; if(!d){ d=true; JNINativeInterface_& t=j_tbl;
  t.FindClass=fFindClass; t.GetObjectClass=fGetObjectClass; t.GetFieldID=fGetFieldID; t.GetMethodID=fGetMethodID; t.GetStaticMethodID=fGetStaticMethodID; t.GetLongField=fGetLongField; t.SetLongField=fSetLongField; t.NewString=fNewString; t.NewStringUTF=fNewStringUTF; t.GetStringChars=fGetStringChars; t.GetStringLength=fGetStringLength; t.ReleaseStringChars=fReleaseStringChars; t.NewObjectV=fNewObjectV; t.NewObjectA=fNewObjectA; t.Throw=fThrow; t.ExceptionOccurred=fExceptionOccurred; t.ExceptionClear=fExceptionClear; t.ExceptionDescribe=fExceptionDescribe; t.NewObjectArray=fNewObjectArray; t.SetObjectArrayElement=fSetObjectArrayElement; t.GetObjectArrayElement=fGetObjectArrayElement; t.GetArrayLength=fGetArrayLength;
  t.NewIntArray=fNewInt; t.NewByteArray=fNewByte; t.NewShortArray=fNewShort; t.NewLongArray=fNewLong; t.SetIntArrayRegion=fSetInt; t.SetByteArrayRegion=fSetByte; t.SetShortArrayRegion=fSetShort; t.SetLongArrayRegion=fSetLong; t.GetIntArrayElements=fGetInt; t.GetByteArrayElements=fGetByte; t.GetShortArrayElements=fGetShort; t.GetLongArrayElements=fGetLong; t.ReleaseIntArrayElements=fRelInt; t.ReleaseByteArrayElements=fRelByte; t.ReleaseShortArrayElements=fRelShort; t.ReleaseLongArrayElements=fRelLong;
  t.PushLocalFrame=fPush; t.PopLocalFrame=fPop; t.NewGlobalRef=fNewGlobalRef; t.CallStaticIntMethodV=fCallStaticIntMethodV; t.CallStaticVoidMethodV=fCallStaticVoidMethodV; t.GetJavaVM=fGetJavaVM; j_inv.AttachCurrentThread=fAttach; j_inv.DetachCurrentThread=fDetach; j_vm.functions=&j_inv; j_env.functions=&j_tbl; }
  return &j_env; }
// every native method returns with its frames popped and its copies released
static void balanced(){ SX_ASSERT(j_frames==0&&j_open==0,"frames are popped and lent copies returned"); j_pins=0; }
template<class T> static J* jOf(std::vector<T> const& v,int k){ J* a=jNew(k,(int)v.size()); for(size_t i=0;i<v.size();++i) ((T*)a->d)[i]=v[i]; return a; }
static J* jStrs(std::vector<UnicodeStringRef> const& v){ J* a=jNew(JK_ARR,(int)v.size()); for(size_t i=0;i<v.size();++i) if(v[i].getBuffer()){ J* s=jNew(JK_STR,(int)v[i].length()); if(s->n) memcpy(s->d,v[i].getBuffer(),(size_t)s->n*2); a->o[i]=s; } return a; }
static J* jStr(const char* p){ int n=(int)strlen(p); J* s=jNew(JK_STR,n); for(int i=0;i<n;++i) ((jchar*)s->d)[i]=(jchar)p[i]; return s; }
template<class T> static bool jeqArr(J* a,int k,std::vector<T> const& v){ if(!a||a->k!=k||a->n!=(int)v.size()) return false; uint64_t x=0; for(int i=0;i<a->n;++i) x|=(uint64_t)(((T*)a->d)[i]^v[i]); return x==0; }
static bool jeqStrs(J* a,std::vector<UnicodeStringRef> const& v){ if(!a||a->k!=JK_ARR||a->n!=(int)v.size()) return false; unsigned x=0; for(int i=0;i<a->n;++i){ J* s=a->o[i]; if((s==0)!=(v[i].getBuffer()==NULL)) return false; if(!s) continue; if(s->n!=(int)v[i].length()) return false; for(int q=0;q<s->n;++q) x|=(unsigned)(((jchar*)s->d)[q]^v[i].getBuffer()[q]); } return x==0; }
#endif
