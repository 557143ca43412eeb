package main

import "unsafe"

type unsafePtr = unsafe.Pointer
