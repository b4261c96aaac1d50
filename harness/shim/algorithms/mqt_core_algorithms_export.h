#pragma once
#define MQT_CORE_ALGORITHMS_EXPORT
#define MQT_CORE_ALGORITHMS_NO_EXPORT
#define MQT_CORE_ALGORITHMS_DEPRECATED
