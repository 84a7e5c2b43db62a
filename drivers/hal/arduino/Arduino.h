// The part of the Arduino core that the library uses: declarations only, the drivers give them their meaning.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#define HIGH 0x1
#define LOW 0x0
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define PULLDOWN 0x08
#define MSBFIRST 1
uint32_t millis();
uint32_t micros();
void delay(uint32_t);
void delayMicroseconds(uint32_t);
void digitalWrite(uint8_t pin, uint8_t level);
int digitalRead(uint8_t pin);
void pinMode(uint8_t pin, uint8_t mode);
uint16_t analogRead(uint8_t pin);
#define INPUT_PULLUP 0x05
#define INPUT_PULLDOWN 0x09
void yield();
