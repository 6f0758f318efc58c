#pragma once
#define ROTOR_THREAD_API
#define ROTOR_THREAD_NO_EXPORT
#define ROTOR_THREAD_DEPRECATED
