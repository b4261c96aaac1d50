#pragma once
#define MQT_CORE_NA_EXPORT
#define MQT_CORE_NA_NO_EXPORT
#define MQT_CORE_NA_DEPRECATED
