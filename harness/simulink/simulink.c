/* included at the end of an S-function, as MATLAB's simulink.c is: publishes the block's entry points under its name */
#define MOCK_CAT2(a, b) a##b
#define MOCK_CAT(a, b) MOCK_CAT2(a, b)
MockBlock MOCK_CAT(mock_, S_FUNCTION_NAME) = {
  mdlInitializeSizes,
#ifdef MDL_SET_INPUT_PORT_DIMENSION_INFO
  mdlSetInputPortDimensionInfo,
#else
  0,
#endif
#ifdef MDL_SET_OUTPUT_PORT_DIMENSION_INFO
  mdlSetOutputPortDimensionInfo,
#else
  0,
#endif
#ifdef MDL_SET_DEFAULT_PORT_DIMENSION_INFO
  mdlSetDefaultPortDimensionInfo,
#else
  0,
#endif
#ifdef MDL_SET_WORK_WIDTHS
  mdlSetWorkWidths,
#else
  0,
#endif
  mdlInitializeSampleTimes,
#ifdef MDL_START
  mdlStart,
#else
  0,
#endif
#ifdef MDL_INITIALIZE_CONDITIONS
  mdlInitializeConditions,
#else
  0,
#endif
  mdlOutputs,
#ifdef MDL_UPDATE
  mdlUpdate,
#else
  0,
#endif
  mdlTerminate
};
