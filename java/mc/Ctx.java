package com.google.privacy.differentialprivacy;

import java.util.*;
import java.util.function.Supplier;

/** The report of one case: states reached, comparisons, failures. */
final class Ctx {
  final Set<Long> states = new HashSet<>();
  long transitions, traces, evals;
  final List<String[]> fails = new ArrayList<>();
  final List<String> samples = new ArrayList<>();
  final Map<String, Integer> nfails = new HashMap<>();

  void state(String s) {
    long h = 1469598103934665603L;
    for (int i = 0; i < s.length(); i++) h = (h ^ s.charAt(i)) * 1099511628211L;
    states.add(h);
  }

  void fail(String key, String msg) {
    if (nfails.merge(key, 1, Integer::sum) <= 2 && fails.size() < 60) fails.add(new String[] {key, msg});
  }

  boolean check(boolean ok, String key, Supplier<String> msg) {
    evals++;
    if (!ok) fail(key, msg.get());
    return ok;
  }

  void trace(String s) {
    traces++;
    if (samples.size() < 2) samples.add(s);
  }

  static String esc(String s) {
    StringBuilder o = new StringBuilder("\"");
    for (char c : s.toCharArray())
      if (c == '"' || c == '\\') o.append('\\').append(c);
      else if (c < 32 || c > 126) o.append('?');
      else o.append(c);
    return o + "\"";
  }

  String json() {
    StringBuilder o = new StringBuilder("{\"states\":[");
    boolean first = true;
    for (long h : states) {
      o.append(first ? "\"" : ",\"").append(Long.toHexString(h)).append('"');
      first = false;
    }
    o.append("],\"transitions\":" + transitions + ",\"traces\":" + traces + ",\"evals\":" + evals + ",\"fails\":[");
    first = true;
    for (String[] f : fails) {
      o.append((first ? "" : ",") + "{\"key\":" + esc(f[0]) + ",\"msg\":" + esc(f[1]) + "}");
      first = false;
    }
    o.append("],\"samples\":[");
    first = true;
    for (String s : samples) {
      o.append((first ? "" : ",") + esc(s));
      first = false;
    }
    return o + "]}";
  }
}
