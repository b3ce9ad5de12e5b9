/* a stand-in for Simulink's simstruc.h: the part of the level-2 S-function interface a block may use; implemented in c31.cpp */
#ifndef MOCK_SIMSTRUC_H
#define MOCK_SIMSTRUC_H
#include <stddef.h>
#include "mex.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef int int_T; typedef unsigned int uint_T; typedef double real_T; typedef double time_T; typedef unsigned char boolean_T; typedef char char_T; typedef int DTypeId; typedef int CSignal_T; typedef int SSOptions_T;
typedef const real_T *const *InputRealPtrsType; typedef const void *const *InputPtrsType;
typedef struct DimsInfo_tag { int_T width, numDims; int_T *dims; struct DimsInfo_tag *nextSigDims; } DimsInfo_T;
typedef struct SimStruct_tag SimStruct;
#define DYNAMICALLY_SIZED (-1)
#define DYNAMICALLY_TYPED (-1)
#define INHERITED_SAMPLE_TIME ((real_T)-1.0)
#define CONTINUOUS_SAMPLE_TIME ((real_T)0.0)
#define FIXED_IN_MINOR_STEP_OFFSET ((real_T)1.0)
#define SS_DOUBLE 0
#define COMPLEX_NO 0
#define COMPLEX_YES 1
#define SS_OPTION_EXCEPTION_FREE_CODE 1
#define SS_OPTION_WORKS_WITH_CODE_REUSE 2
#define SS_OPTION_USE_TLC_WITH_ACCELERATOR 4
#define SS_OPTION_CALL_TERMINATE_ON_EXIT 8
#define SS_OPTION_RUNTIME_EXCEPTION_FREE_CODE 16
#define USE_DEFAULT_SIM_STATE 0
#define DEFAULT_SIM_STATE 0
#define SS_NOT_REUSABLE_AND_GLOBAL 0
#define SS_REUSABLE_AND_LOCAL 1
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#ifndef UNUSED_ARG
#define UNUSED_ARG(x) ((void)(x))
#endif
int_T ssSetNumContStates(SimStruct *, int_T); int_T ssSetNumDiscStates(SimStruct *, int_T); int_T ssSetNumSFcnParams(SimStruct *, int_T); int_T ssGetNumSFcnParams(SimStruct *); int_T ssGetSFcnParamsCount(SimStruct *);
int_T ssSetNumInputPorts(SimStruct *, int_T); int_T ssSetNumOutputPorts(SimStruct *, int_T); int_T ssGetNumInputPorts(SimStruct *); int_T ssGetNumOutputPorts(SimStruct *);
int_T ssSetInputPortVectorDimension(SimStruct *, int_T, int_T); int_T ssSetInputPortWidth(SimStruct *, int_T, int_T); int_T ssSetInputPortMatrixDimensions(SimStruct *, int_T, int_T, int_T); int_T ssSetInputPortDimensionInfo(SimStruct *, int_T, const DimsInfo_T *);
int_T ssSetOutputPortVectorDimension(SimStruct *, int_T, int_T); int_T ssSetOutputPortWidth(SimStruct *, int_T, int_T); int_T ssSetOutputPortMatrixDimensions(SimStruct *, int_T, int_T, int_T); int_T ssSetOutputPortDimensionInfo(SimStruct *, int_T, const DimsInfo_T *);
int_T ssSetInputPortDirectFeedThrough(SimStruct *, int_T, int_T); int_T ssSetInputPortRequiredContiguous(SimStruct *, int_T, int_T); int_T ssSetInputPortDataType(SimStruct *, int_T, DTypeId); int_T ssSetOutputPortDataType(SimStruct *, int_T, DTypeId); int_T ssSetInputPortComplexSignal(SimStruct *, int_T, int_T); int_T ssSetOutputPortComplexSignal(SimStruct *, int_T, int_T); int_T ssSetInputPortOptimOpts(SimStruct *, int_T, int_T); int_T ssSetOutputPortOptimOpts(SimStruct *, int_T, int_T); int_T ssSetInputPortReusable(SimStruct *, int_T, int_T); int_T ssSetInputPortOverWritable(SimStruct *, int_T, int_T);
int_T ssSetNumSampleTimes(SimStruct *, int_T); void ssSetSampleTime(SimStruct *, int_T, time_T); void ssSetOffsetTime(SimStruct *, int_T, time_T); time_T ssGetT(SimStruct *); int_T ssSetModelReferenceSampleTimeDefaultInheritance(SimStruct *);
int_T ssSetNumRWork(SimStruct *, int_T); int_T ssSetNumIWork(SimStruct *, int_T); int_T ssSetNumPWork(SimStruct *, int_T); int_T ssSetNumModes(SimStruct *, int_T); int_T ssSetNumNonsampledZCs(SimStruct *, int_T); void ssSetOptions(SimStruct *, uint_T); int_T ssSetSimStateCompliance(SimStruct *, int_T);
int_T ssGetInputPortWidth(SimStruct *, int_T); int_T ssGetOutputPortWidth(SimStruct *, int_T); int_T *ssGetInputPortDimensions(SimStruct *, int_T); int_T ssGetInputPortNumDimensions(SimStruct *, int_T); int_T *ssGetOutputPortDimensions(SimStruct *, int_T); int_T ssGetInputPortConnected(SimStruct *, int_T); int_T ssGetOutputPortConnected(SimStruct *, int_T);
InputRealPtrsType ssGetInputPortRealSignalPtrs(SimStruct *, int_T); InputPtrsType ssGetInputPortSignalPtrs(SimStruct *, int_T); const real_T *ssGetInputPortRealSignal(SimStruct *, int_T); const void *ssGetInputPortSignal(SimStruct *, int_T);
real_T *ssGetOutputPortRealSignal(SimStruct *, int_T); void *ssGetOutputPortSignal(SimStruct *, int_T);
void ssSetErrorStatus(SimStruct *, const char *); const char *ssGetErrorStatus(SimStruct *); void ssWarning(SimStruct *, const char *); int ssPrintf(const char *, ...);
#define ssSetLocalErrorStatus ssSetErrorStatus
typedef struct {
  void (*sizes)(SimStruct *); void (*inDims)(SimStruct *, int_T, const DimsInfo_T *); void (*outDims)(SimStruct *, int_T, const DimsInfo_T *); void (*defDims)(SimStruct *); void (*workWidths)(SimStruct *);
  void (*sampleTimes)(SimStruct *); void (*start)(SimStruct *); void (*initCond)(SimStruct *); void (*outputs)(SimStruct *, int_T); void (*update)(SimStruct *, int_T); void (*terminate)(SimStruct *);
} MockBlock;
#ifdef __cplusplus
}
#endif
#endif
