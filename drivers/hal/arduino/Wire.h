#pragma once
#include "Arduino.h"
class TwoWire
{
public:
    void beginTransmission(uint16_t address);
    void beginTransmission(uint8_t address) { beginTransmission((uint16_t)address); }
    void beginTransmission(int address) { beginTransmission((uint16_t)address); }
    uint8_t endTransmission(bool stop);
    uint8_t endTransmission() { return endTransmission(true); }
    size_t write(uint8_t c);
    size_t write(const uint8_t* data, size_t n);
    uint8_t requestFrom(uint16_t address, uint8_t n, bool stop);
    size_t requestFrom(uint16_t address, size_t n, bool stop);
    uint8_t requestFrom(int address, int n) { return (uint8_t)requestFrom((uint16_t)address, (size_t)n, true); }
    uint8_t requestFrom(uint8_t address, uint8_t n) { return (uint8_t)requestFrom((uint16_t)address, (size_t)n, true); }
    int read();
    size_t readBytes(uint8_t* data, size_t n);
    int available();
    int state;
};
