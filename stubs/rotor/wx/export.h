#pragma once
#define ROTOR_WX_API
#define ROTOR_WX_NO_EXPORT
#define ROTOR_WX_DEPRECATED
