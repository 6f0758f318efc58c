#pragma once
#define ROTOR_API
#define ROTOR_NO_EXPORT
#define ROTOR_DEPRECATED
