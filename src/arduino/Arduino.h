// Stand-in for the Arduino core: simulated clock and interrupt flag (see h6_arduino.cpp).
#pragma once
#include <cstdio>
#include <cstdarg>
extern "C" {
unsigned long millis();
void noInterrupts();
void interrupts();
}
#define F(x) x
struct SerialStub { void println(const char*) {} };
static SerialStub Serial;
