package com.google.privacy.differentialprivacy;

import java.util.*;

/** Explores the Java library exhaustively within bounds: list PROP TIER | run PROP CASE[;CASE...] | eval. */
public final class Main {
  interface Explorer {
    List<String> list(boolean deep);

    void run(Ctx c, Case cs);
  }

  static final Map<String, Explorer> ALL = new HashMap<>();

  static {
    ALL.put("J01", new J01());
    ALL.put("J02", new J02());
    ALL.put("J03", new J03());
    ALL.put("J05", new J05());
    ALL.put("J06", new J06());
  }

  public static void main(String[] a) throws Exception {
    Prov.install();
    if (a[0].equals("eval")) {
      Eval.all();
      return;
    }
    Explorer e = ALL.get(a[1]);
    if (a[0].equals("list")) {
      for (String s : e.list(!a[2].equals("quick"))) System.out.println(s);
      return;
    }
    Ctx c = new Ctx();
    for (String s : a[2].split(";")) {
      try {
        e.run(c, new Case(s));
      } catch (Throwable t) {
        StackTraceElement[] st = t.getStackTrace();
        c.fail("stopped " + s, s + ": " + t + (st.length > 0 ? " at " + st[0] : ""));
      }
    }
    System.out.println(c.json());
  }
}
