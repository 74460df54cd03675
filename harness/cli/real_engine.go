package main

func real(w *world) *result { return nil }
