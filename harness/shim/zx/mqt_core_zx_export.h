#pragma once
#define MQT_CORE_ZX_EXPORT
#define MQT_CORE_ZX_NO_EXPORT
#define MQT_CORE_ZX_DEPRECATED
