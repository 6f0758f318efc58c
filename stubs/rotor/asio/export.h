#pragma once
#define ROTOR_ASIO_API
#define ROTOR_ASIO_NO_EXPORT
#define ROTOR_ASIO_DEPRECATED
