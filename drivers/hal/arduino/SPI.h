#pragma once
#include "Arduino.h"
#define SPI_MODE0 0
struct SPISettings
{
    SPISettings() : clock(1000000), order(MSBFIRST), mode(SPI_MODE0) {}
    SPISettings(uint32_t c, uint8_t o, uint8_t m) : clock(c), order(o), mode(m) {}
    uint32_t clock;
    uint8_t order, mode;
};
class SPIClass
{
public:
    void beginTransaction(SPISettings settings);
    void endTransaction();
    uint8_t transfer(uint8_t data);
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t n);
    void write(uint8_t data);
    void writeBytes(const uint8_t* data, uint32_t n);
    int state;
};
