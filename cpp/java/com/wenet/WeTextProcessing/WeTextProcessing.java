package com.wenet.WeTextProcessing;

// What the Kotlin object in runtime/android compiles to, with the library path taken from a property.
public final class WeTextProcessing {
    static {
        System.load(System.getProperty("wetext.library"));
    }

    public static final native void init(String modelDir);

    public static final native String normalize(String input);

    public static final native String inverse_normalize(String input);
}
