package com.google.auto.value;

/** Stand-in of the annotation; proc/AutoValueProcessor writes the classes. */
public @interface AutoValue {
  @interface Builder {}
}
