/* all functions of an FMU */
#define F3LIST(X) X(GetVersion) X(SetDebugLogging) X(InstantiateModelExchange) X(InstantiateCoSimulation) X(InstantiateScheduledExecution) \
    X(FreeInstance) X(EnterInitializationMode) X(ExitInitializationMode) X(EnterEventMode) X(Terminate) X(Reset) \
    X(GetFloat32) X(GetFloat64) X(GetInt8) X(GetUInt8) X(GetInt16) X(GetUInt16) X(GetInt32) X(GetUInt32) X(GetInt64) X(GetUInt64) \
    X(GetBoolean) X(GetString) X(GetBinary) X(GetClock) \
    X(SetFloat32) X(SetFloat64) X(SetInt8) X(SetUInt8) X(SetInt16) X(SetUInt16) X(SetInt32) X(SetUInt32) X(SetInt64) X(SetUInt64) \
    X(SetBoolean) X(SetString) X(SetBinary) X(SetClock) X(GetNumberOfVariableDependencies) X(GetVariableDependencies) \
    X(GetFMUState) X(SetFMUState) X(FreeFMUState) X(SerializedFMUStateSize) X(SerializeFMUState) X(DeserializeFMUState) \
    X(GetDirectionalDerivative) X(GetAdjointDerivative) X(EnterConfigurationMode) X(ExitConfigurationMode) \
    X(GetIntervalDecimal) X(GetIntervalFraction) X(GetShiftDecimal) X(GetShiftFraction) X(SetIntervalDecimal) X(SetIntervalFraction) \
    X(SetShiftDecimal) X(SetShiftFraction) X(EvaluateDiscreteStates) X(UpdateDiscreteStates) X(EnterContinuousTimeMode) X(CompletedIntegratorStep) \
    X(SetTime) X(SetContinuousStates) X(GetContinuousStateDerivatives) X(GetEventIndicators) X(GetContinuousStates) \
    X(GetNominalsOfContinuousStates) X(GetNumberOfEventIndicators) X(GetNumberOfContinuousStates) X(EnterStepMode) \
    X(GetOutputDerivatives) X(DoStep) X(ActivateModelPartition)
#define F2LIST(X) X(GetTypesPlatform) X(GetVersion) X(SetDebugLogging) X(Instantiate) X(FreeInstance) X(SetupExperiment) X(EnterInitializationMode) \
    X(ExitInitializationMode) X(Terminate) X(Reset) X(GetReal) X(GetInteger) X(GetBoolean) X(GetString) X(SetReal) X(SetInteger) X(SetBoolean) X(SetString) \
    X(GetFMUstate) X(SetFMUstate) X(FreeFMUstate) X(SerializedFMUstateSize) X(SerializeFMUstate) X(DeSerializeFMUstate) X(GetDirectionalDerivative) \
    X(EnterEventMode) X(NewDiscreteStates) X(EnterContinuousTimeMode) X(CompletedIntegratorStep) X(SetTime) X(SetContinuousStates) X(GetDerivatives) \
    X(GetEventIndicators) X(GetContinuousStates) X(GetNominalsOfContinuousStates) X(SetRealInputDerivatives) X(GetRealOutputDerivatives) X(DoStep) \
    X(CancelStep) X(GetStatus) X(GetRealStatus) X(GetIntegerStatus) X(GetBooleanStatus) X(GetStringStatus)
