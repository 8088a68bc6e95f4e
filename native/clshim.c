/* Any device there is (pocl's CPU) passes for a GPU. Shared objects of python modules are opened RTLD_LOCAL, hence the dlopen.
   VF_CLFAIL=<function> makes that function fail; VF_CLFAIL=nogpu leaves the type of device asked for as it is. */
#define CL_TARGET_OPENCL_VERSION 120
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <CL/cl.h>
static void *real(const char *name)
{
  void *f = dlsym(RTLD_NEXT, name);
  if (!f) {
    void *h = dlopen("libOpenCL.so.1", RTLD_LAZY|RTLD_LOCAL);
    f = h ? dlsym(h, name) : 0;
  }
  if (!f) abort();
  return f;
}
static int fail(const char *name)
{
  const char *e = getenv("VF_CLFAIL");
  return e && !strcmp(e, name);
}
static cl_device_type type(cl_device_type t) { return fail("nogpu") ? t : CL_DEVICE_TYPE_ALL; }
static void set(cl_int *e, cl_int v) { if (e) *e = v; }

cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id*d, cl_uint*m){
 cl_int(*f)(cl_platform_id,cl_device_type,cl_uint,cl_device_id*,cl_uint*) = real("clGetDeviceIDs");
 return f(p,type(t),n,d,m);}
cl_context clCreateContextFromType(const cl_context_properties*p, cl_device_type t, void (CL_CALLBACK *cb)(const char*,const void*,size_t,void*), void*u, cl_int*e){
 cl_context(*f)(const cl_context_properties*,cl_device_type,void (CL_CALLBACK *)(const char*,const void*,size_t,void*),void*,cl_int*) = real("clCreateContextFromType");
 return f(p,type(t),cb,u,e);}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id*d, const char*o, void (CL_CALLBACK *cb)(cl_program,void*), void*u){
 cl_int(*f)(cl_program,cl_uint,const cl_device_id*,const char*,void (CL_CALLBACK *)(cl_program,void*),void*) = real("clBuildProgram");
 if (fail("clBuildProgram")) return CL_OUT_OF_HOST_MEMORY;
 return f(p,n,d,o,cb,u);}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags g, size_t n, void*h, cl_int*e){
 cl_mem(*f)(cl_context,cl_mem_flags,size_t,void*,cl_int*) = real("clCreateBuffer");
 if (fail("clCreateBuffer")) { set(e, CL_MEM_OBJECT_ALLOCATION_FAILURE); return 0; }
 return f(c,g,n,h,e);}
cl_kernel clCreateKernel(cl_program p, const char*n, cl_int*e){
 cl_kernel(*f)(cl_program,const char*,cl_int*) = real("clCreateKernel");
 if (fail("clCreateKernel")) { set(e, CL_INVALID_KERNEL_NAME); return 0; }
 return f(p,n,e);}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem b, cl_bool k, size_t o, size_t n, const void*p, cl_uint w, const cl_event*l, cl_event*v){
 cl_int(*f)(cl_command_queue,cl_mem,cl_bool,size_t,size_t,const void*,cl_uint,const cl_event*,cl_event*) = real("clEnqueueWriteBuffer");
 if (fail("clEnqueueWriteBuffer")) return CL_OUT_OF_RESOURCES;
 return f(q,b,k,o,n,p,w,l,v);}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint d, const size_t*o, const size_t*g, const size_t*s, cl_uint w, const cl_event*l, cl_event*v){
 cl_int(*f)(cl_command_queue,cl_kernel,cl_uint,const size_t*,const size_t*,const size_t*,cl_uint,const cl_event*,cl_event*) = real("clEnqueueNDRangeKernel");
 if (fail("clEnqueueNDRangeKernel")) return CL_OUT_OF_RESOURCES;
 return f(q,k,d,o,g,s,w,l,v);}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem b, cl_bool k, size_t o, size_t n, void*p, cl_uint w, const cl_event*l, cl_event*v){
 cl_int(*f)(cl_command_queue,cl_mem,cl_bool,size_t,size_t,void*,cl_uint,const cl_event*,cl_event*) = real("clEnqueueReadBuffer");
 if (fail("clEnqueueReadBuffer")) return CL_OUT_OF_RESOURCES;
 return f(q,b,k,o,n,p,w,l,v);}
