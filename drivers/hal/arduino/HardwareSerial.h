#pragma once
#include "Arduino.h"
class HardwareSerial
{
public:
    explicit HardwareSerial(int n) : number(n), limit(1000) {}
    int read();
    size_t read(uint8_t* data, size_t n);
    int available();
    int peek();
    size_t readBytes(uint8_t* data, size_t n);
    size_t readBytes(char* data, size_t n) { return readBytes((uint8_t*)data, n); }
    size_t readBytesUntil(char end, uint8_t* data, size_t n);
    size_t readBytesUntil(char end, char* data, size_t n) { return readBytesUntil(end, (uint8_t*)data, n); }
    unsigned long getTimeout() { return limit; }
    void setTimeout(unsigned long t) { limit = t; }
    size_t write(uint8_t c) { return write(&c, 1); }
    size_t write(const uint8_t* data, size_t n);
    void flush();
    void flush(bool);
    int number;
    unsigned long limit;
};
