#pragma once
#define ROTOR_EV_API
#define ROTOR_EV_NO_EXPORT
#define ROTOR_EV_DEPRECATED
