package com.google.privacy.differentialprivacy;

import java.util.*;

/** Parameters of a case: "k=v k=v ...". */
final class Case {
  final Map<String, String> kv = new HashMap<>();
  final String text;

  Case(String text) {
    this.text = text;
    for (String w : text.trim().split("\\s+")) {
      int p = w.indexOf('=');
      kv.put(p < 0 ? w : w.substring(0, p), p < 0 ? "" : w.substring(p + 1));
    }
  }

  String s(String k) {
    return kv.getOrDefault(k, "");
  }

  boolean has(String k) {
    return kv.containsKey(k);
  }

  double d(String k, double def) {
    return kv.containsKey(k) ? Double.parseDouble(kv.get(k)) : def;
  }

  int n(String k, int def) {
    return kv.containsKey(k) ? Integer.parseInt(kv.get(k)) : def;
  }

  long l(String k, long def) {
    return kv.containsKey(k) ? Long.parseLong(kv.get(k)) : def;
  }
}
