#pragma once
#include <cstddef>
#include <cstdint>
typedef int i2c_port_t;
typedef enum { I2C_MODE_SLAVE, I2C_MODE_MASTER } i2c_mode_t;
typedef enum { I2C_MASTER_WRITE, I2C_MASTER_READ } i2c_rw_t;
