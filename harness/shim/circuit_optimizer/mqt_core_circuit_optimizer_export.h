#pragma once
#define MQT_CORE_CIRCUIT_OPTIMIZER_EXPORT
#define MQT_CORE_CIRCUIT_OPTIMIZER_NO_EXPORT
#define MQT_CORE_CIRCUIT_OPTIMIZER_DEPRECATED
