From 36355fba941cf7f1296c7c021194106ab99dbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:59 +0000
Subject: [PATCH 01/22] fix: honour '#' for octal and hexadecimal zero as C
 printf does

Zero has no prefix, so zero padding and precision must not reserve room for
one, and '%#.0o' prints a single 0.
---
 .../java/io/fastprintf/appender/SeqFormatter.java     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..c0e88f7 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -111,21 +111,24 @@ public final class SeqFormatter {
   private static Seq formatUnsignedInteger(
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
+    // Zero never gets a prefix, so no room must be reserved for it either.
+    boolean prefixed = signum != 0 && context.hasFlag(Flag.ALTERNATE);
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      boolean octalZero = context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix);
+      return spaceJustify(context, octalZero ? Seq.ch('0') : Seq.empty());
     }
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (prefixed && "0".equals(prefix)) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (prefixed) {
         precision -= prefix.length();
       }
     }
@@ -133,7 +136,7 @@ public final class SeqFormatter {
       Seq pad = Seq.repeated('0', precision - v0.length());
       v0 = v0.prepend(pad);
     }
-    if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
+    if (prefixed) {
       v0 = v0.prepend(Seq.wrap(prefix));
     }
     return spaceJustify(context, v0);
-- 
2.43.0


From ae495b3a2c83985bfb61f78d77527081f13fab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:12 +0000
Subject: [PATCH 02/22] fix: apply the space flag to zero printed with
 precision 0

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index c0e88f7..cbea967 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From c00ea0c17c9879638eb91305384c59de0636140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:27 +0000
Subject: [PATCH 03/22] fix: apply the space flag to positive infinity

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index cbea967..e6b39ab 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -151,6 +151,8 @@ public final class SeqFormatter {
         v0 = Seq.wrap("-Infinity");
       } else if (context.hasFlag(Flag.PLUS)) {
         v0 = Seq.wrap("+Infinity");
+      } else if (context.hasFlag(Flag.LEADING_SPACE)) {
+        v0 = Seq.wrap(" Infinity");
       } else {
         v0 = Seq.wrap("Infinity");
       }
-- 
2.43.0


From 110b4267995853dfd04b81c3de86522e494ec30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:56 +0000
Subject: [PATCH 04/22] fix: keep the requested length when slicing a composite
 sequence

The bounds are consumed while walking the parts, so their difference after
the loop is not the length of the slice.
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..9febfb2 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int subLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), subLength);
   }
 
   /**
-- 
2.43.0


From a06ae9c6394507fc4bc36d1efe530726e11567e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:08 +0000
Subject: [PATCH 05/22] fix: print two exponent digits for ten-digit unscaled
 integers

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..16c27f5 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From 876af7baf06cdfc9ed0321c918bf1457d5ebf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:41 +0000
Subject: [PATCH 06/22] fix: print a decimal zero of any scale as plain zero

A zero with a non-zero scale leaked its scale into the digits or exponent,
for example 0E+3 printed as 0000.000000 and 0.00 as 0e-02.
---
 .../java/io/fastprintf/number/BigDecimalWrapper.java   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 16c27f5..6f19613 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -35,7 +35,7 @@ public final class BigDecimalWrapper implements FloatForm {
     int scale = value.scale();
     String unscaledString = unscaledValue.toString();
     int length = unscaledString.length();
-    if (scale == 0) {
+    if (scale == 0 || value.signum() == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
         Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
@@ -70,7 +70,7 @@ public final class BigDecimalWrapper implements FloatForm {
     BigInteger unscaledValue = value.unscaledValue();
     int scale = value.scale();
     String unscaledString = unscaledValue.toString();
-    if (scale == 0) {
+    if (scale == 0 || (scale < 0 && value.signum() == 0)) {
       return new FloatLayout(Seq.wrap(unscaledString), null);
     }
     int length = unscaledString.length();
@@ -112,10 +112,12 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout generalLayout(int precision) {
+    if (signum == 0) {
+      return new FloatLayout(Seq.ch('0'), null);
+    }
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
-    if ((value.equals(BigDecimal.ZERO))
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+    if ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0)) {
 
       int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
 
-- 
2.43.0


From 01ef9176d6864774317f5d05180ef9abee0ef1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:52 +0000
Subject: [PATCH 07/22] fix: choose the %g notation of decimals after rounding

999999.9 printed as 1000000 instead of 1e+06, unlike the same double.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 6f19613..7e9f73c 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -117,9 +117,11 @@ public final class BigDecimalWrapper implements FloatForm {
     }
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
-    if ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0)) {
+    // The notation depends on the value that is printed, that is, after rounding.
+    BigDecimal rounded = value.round(new MathContext(precision));
+    if ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0)) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.precision() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 37a1e36b4439399cf56dce93e77bf71adfd64940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 08/22] fix: compile formats of any length without exhausting
 the stack

The parser called itself once per directive, so a format with a few thousand
directives ended in a StackOverflowError.
---
 src/main/java/io/fastprintf/Compiler.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2683972 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
@@ -209,8 +208,7 @@ final class Compiler {
       return;
     }
     appenders.add(new FixedStringAppender(source.substring(lookahead, nextPercent)));
-    lookahead = nextPercent + 1;
-    forPattern();
+    lookahead = nextPercent;
   }
 
   List<Appender> getAppenders() {
-- 
2.43.0


From 6ff32d53e12aee5b93ddeffb3c9b206e7e8a2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:36 +0000
Subject: [PATCH 09/22] fix: refuse a dynamic width of Integer.MIN_VALUE

Its negation overflows to the same number, which was taken for 'no width'.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..84ec8c1 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -102,6 +102,8 @@ public final class DefaultAppender implements Appender {
       int w = nextInt(traitsIterator);
       if (w >= 0) {
         context = context.setWidth(w);
+      } else if (w == Integer.MIN_VALUE) {
+        throw new PrintfException("Width is too small: %s", w);
       } else {
         context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
       }
-- 
2.43.0


From 18f992ff19b17f5c4764a9bca76fdd63a4f2eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:48 +0000
Subject: [PATCH 10/22] fix: return an unmodifiable list of argument values as
 documented

---
 src/main/java/io/fastprintf/ArgsImpl.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/ArgsImpl.java b/src/main/java/io/fastprintf/ArgsImpl.java
index 37dc4d5..6cd7265 100644
--- a/src/main/java/io/fastprintf/ArgsImpl.java
+++ b/src/main/java/io/fastprintf/ArgsImpl.java
@@ -5,6 +5,7 @@ import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.time.temporal.TemporalAccessor;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.Iterator;
 import java.util.List;
 import java.util.function.BiFunction;
@@ -63,7 +64,7 @@ final class ArgsImpl implements Args {
     for (FormatTraits trait : traits) {
       values.add(trait.asObject());
     }
-    return values;
+    return Collections.unmodifiableList(values);
   }
 
   @Override
-- 
2.43.0


From 407b7caa560a212a7b928ea4bde53dc9759050b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:19 +0000
Subject: [PATCH 11/22] fix: let a cached formatter be used again from an
 argument's toString()

The nested call reset and refilled the per-thread builder of the call in
progress. The builder is now taken out of the cache while it is in use.
---
 .../java/io/fastprintf/FastPrintfImpl.java    | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..8ec3d65 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,11 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            if (builder == null) {
+              // The cached builder belongs to an enclosing call on this thread (an argument's
+              // toString() may use this formatter as well).
+              return new StringBuilder(requiredCapacity);
+            }
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +53,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -57,6 +61,8 @@ final class FastPrintfImpl implements FastPrintf {
               builder.setLength(0);
               builder.ensureCapacity(requiredCapacity);
             }
+            // Taken until the call has finished with it.
+            threadLocalBuilder.set(null);
             return builder;
           };
     } else {
@@ -83,11 +89,17 @@ final class FastPrintfImpl implements FastPrintf {
     StringBuilder builder = stringBuilderFactory.apply(stringBuilderInitialCapacity);
     // OPTIMIZATION: Create the consumer ONCE.
     // This reduces allocation from O(N) to O(1) where N is the number of appenders.
-    Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    try {
+      Consumer<Seq> consumer = seq -> seq.appendTo(builder);
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      if (threadLocalBuilder != null) {
+        threadLocalBuilder.set(builder);
+      }
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0


From 219cf478b89c45afd76d88a75650c519c60709b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:41 +0000
Subject: [PATCH 12/22] fix: report instants beyond the millisecond range as a
 formatting error

An instant such as Instant.MAX let an ArithmeticException escape.
---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..4dc1244 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,7 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0


From efb6536d115888c8959b57d64c03369d50908380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:36 +0000
Subject: [PATCH 13/22] fix: print decimals whose exponent does not fit in 32
 bits

---
 .../fastprintf/number/BigDecimalWrapper.java  | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 7e9f73c..820c9ca 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -30,12 +30,10 @@ public final class BigDecimalWrapper implements FloatForm {
     return mant;
   }
 
-  private static FloatLayout scientificLayout0(BigDecimal value) {
-    BigInteger unscaledValue = value.unscaledValue();
-    int scale = value.scale();
+  private static FloatLayout scientificLayout0(BigInteger unscaledValue, long scale) {
     String unscaledString = unscaledValue.toString();
     int length = unscaledString.length();
-    if (scale == 0 || value.signum() == 0) {
+    if (scale == 0 || unscaledValue.signum() == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
         Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
@@ -50,7 +48,7 @@ public final class BigDecimalWrapper implements FloatForm {
     } else {
       mant = Seq.wrap(unscaledString);
     }
-    long adjusted = -(long) scale + (length - 1);
+    long adjusted = -scale + (length - 1);
     Seq exp;
     if (adjusted != 0) {
       long abs = Math.abs(adjusted);
@@ -115,13 +113,10 @@ public final class BigDecimalWrapper implements FloatForm {
     if (signum == 0) {
       return new FloatLayout(Seq.ch('0'), null);
     }
-    BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
-    BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
     // The notation depends on the value that is printed, that is, after rounding.
-    BigDecimal rounded = value.round(new MathContext(precision));
-    if ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0)) {
-
-      int e = -rounded.scale() + (rounded.precision() - 1);
+    BigDecimal rounded = new BigDecimal(value.unscaledValue(), new MathContext(precision));
+    long e = -((long) value.scale() + rounded.scale()) + (rounded.precision() - 1);
+    if (e >= -4 && e < precision) {
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
@@ -133,7 +128,7 @@ public final class BigDecimalWrapper implements FloatForm {
       //   f precision = #0 (after '.') + #z
       //   exponent = - #0 (after '.') - 1
       // => f precision = g precision - exponent - 1
-      precision = precision - e - 1;
+      precision = precision - (int) e - 1;
       return decimalLayout(precision);
     } else {
       return scientificLayout(precision - 1);
@@ -152,8 +147,9 @@ public final class BigDecimalWrapper implements FloatForm {
       compPrec = precision + 1;
     }
     MathContext mc = new MathContext(compPrec);
-    BigDecimal v = new BigDecimal(value.unscaledValue(), scale, mc);
-    return scientificLayout0(v);
+    // The digits are rounded apart from the scale, which might overflow.
+    BigDecimal v = new BigDecimal(value.unscaledValue(), mc);
+    return scientificLayout0(v.unscaledValue(), (long) scale + v.scale());
   }
 
   @Override
-- 
2.43.0


From ef269916f0c7cd2e3767c1b9dcdb8cb29886a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:11 +0000
Subject: [PATCH 14/22] fix: print tiny decimals without dividing by a huge
 power of ten

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 820c9ca..767ac42 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -159,7 +159,10 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale > precision) {
       // more "scale" digits than the requested "precision"
       int compPrec = value.precision();
-      if (compPrec <= scale) {
+      if (compPrec < (long) scale - precision) {
+        // too small for any of the requested digits
+        value = BigDecimal.valueOf(0, precision);
+      } else if (compPrec <= scale) {
         // case of 0.xxxxxx
         value = value.setScale(precision, RoundingMode.HALF_UP);
       } else {
-- 
2.43.0


From 66c04baa5cfc7830cb517ce6a9af6c472fe6aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:50 +0000
Subject: [PATCH 15/22] fix: truncate tiny decimals to zero without dividing by
 a huge power of ten

---
 src/main/java/io/fastprintf/traits/BigDecimalTraits.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
index 476b1e9..d8a4d8e 100644
--- a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
@@ -3,6 +3,7 @@ package io.fastprintf.traits;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import java.math.BigDecimal;
+import java.math.BigInteger;
 
 public final class BigDecimalTraits implements FormatTraits {
 
@@ -14,7 +15,9 @@ public final class BigDecimalTraits implements FormatTraits {
 
   @Override
   public IntForm asIntForm() {
-    return IntForm.valueOf(value.toBigInteger());
+    // Fractions are recognized by their scale, dividing by a huge power of ten takes too long.
+    boolean fraction = value.precision() <= value.scale();
+    return IntForm.valueOf(fraction ? BigInteger.ZERO : value.toBigInteger());
   }
 
   @Override
-- 
2.43.0


From 7852e46693627cfc6f24eb7d3d4b9216e1e42c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 16/22] fix: print instants, dates and epoch numbers with a
 date-time pattern

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index e6b39ab..94447eb 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -393,13 +393,11 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
+    if (temporalAccessor instanceof Instant) {
+      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+    }
     if (formatter == null) {
-      if (temporalAccessor instanceof Instant) {
-        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-        formatter = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
-      } else {
-        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
-      }
+      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
     Seq seq = Seq.wrap(formatter.format(temporalAccessor));
     return spaceJustify(context, seq);
-- 
2.43.0


From 3c6bf98b7e9629278aa56e4490dd5703255cc10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:28 +0000
Subject: [PATCH 17/22] fix: accept java.sql.Date and java.sql.Time for %t

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..6bbc6e8 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -5,6 +5,7 @@ import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
 import java.lang.reflect.Array;
+import java.time.Instant;
 import java.time.temporal.TemporalAccessor;
 import java.util.Arrays;
 import java.util.Base64;
@@ -93,7 +94,12 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      try {
+        return ((Date) value).toInstant();
+      } catch (UnsupportedOperationException e) {
+        // java.sql.Date and java.sql.Time refuse toInstant().
+        return Instant.ofEpochMilli(((Date) value).getTime());
+      }
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0


From de9d4d0261d55528d0fbfea746565c747b41024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:52 +0000
Subject: [PATCH 18/22] fix: report date-time values that lack a field of the
 pattern as a formatting error

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 94447eb..d7ebd1b 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -9,6 +9,7 @@ import io.fastprintf.number.IntForm;
 import io.fastprintf.seq.Seq;
 import io.fastprintf.traits.FormatTraits;
 import io.fastprintf.traits.RefSlot;
+import java.time.DateTimeException;
 import java.time.Instant;
 import java.time.LocalDate;
 import java.time.LocalDateTime;
@@ -399,7 +400,11 @@ public final class SeqFormatter {
     if (formatter == null) {
       formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
-    Seq seq = Seq.wrap(formatter.format(temporalAccessor));
-    return spaceJustify(context, seq);
+    try {
+      Seq seq = Seq.wrap(formatter.format(temporalAccessor));
+      return spaceJustify(context, seq);
+    } catch (DateTimeException e) {
+      throw new PrintfException("Can't format date-time: " + e.getMessage(), e);
+    }
   }
 }
-- 
2.43.0


From 7d03b44f24827500f0bd6243679e5e5170602541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:18 +0000
Subject: [PATCH 19/22] fix: refuse integers beyond 64 bits as instants instead
 of truncating them

---
 src/main/java/io/fastprintf/traits/BigIntegerTraits.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
index fd98487..32f73fb 100644
--- a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
@@ -1,5 +1,6 @@
 package io.fastprintf.traits;
 
+import io.fastprintf.PrintfException;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
@@ -37,6 +38,9 @@ public final class BigIntegerTraits implements FormatTraits {
 
   @Override
   public TemporalAccessor asTemporalAccessor() {
+    if (value.bitLength() > 63) {
+      throw new PrintfException("%s is too large for an instant", value);
+    }
     return Utils.longToInstant(value.longValue());
   }
 
-- 
2.43.0


From b2f3dafb9882d11964b0f6548506cf602785cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:44 +0000
Subject: [PATCH 20/22] fix: report instants outside the supported date range
 as a formatting error

---
 .../java/io/fastprintf/appender/SeqFormatter.java    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index d7ebd1b..96b8cd7 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -394,13 +394,13 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
-    if (temporalAccessor instanceof Instant) {
-      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-    }
-    if (formatter == null) {
-      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
-    }
     try {
+      if (temporalAccessor instanceof Instant) {
+        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+      }
+      if (formatter == null) {
+        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
+      }
       Seq seq = Seq.wrap(formatter.format(temporalAccessor));
       return spaceJustify(context, seq);
     } catch (DateTimeException e) {
-- 
2.43.0


From fb17c78df87acfbadb4ac7f28d05636d5dfe25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:46 +0000
Subject: [PATCH 21/22] fix: drop an oversized cached buffer also when a large
 capacity is configured

---
 src/main/java/io/fastprintf/FastPrintfImpl.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 8ec3d65..dc3510a 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -45,10 +45,10 @@ final class FastPrintfImpl implements FastPrintf {
             // "Unnecessarily large" means:
             // 1. Its current capacity exceeds our maximum retention limit.
             // AND
-            // 2. The capacity required for THIS specific call is within that limit.
+            // 2. It exceeds the capacity required for THIS specific call.
             // This prevents churn when the user intentionally sets a large initial capacity.
             if (currentCapacity > STRING_BUILDER_MAX_RETAINED_CAPACITY
-                && requiredCapacity <= STRING_BUILDER_MAX_RETAINED_CAPACITY) {
+                && currentCapacity > requiredCapacity) {
 
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
@@ -57,7 +57,7 @@ final class FastPrintfImpl implements FastPrintf {
             } else {
               // In all other cases, we reuse the existing builder:
               // - If it's within the size limit.
-              // - If it's large, but the user is asking for a large buffer anyway (avoids churn).
+              // - If it's large, but the user is asking for a buffer that large (avoids churn).
               builder.setLength(0);
               builder.ensureCapacity(requiredCapacity);
             }
-- 
2.43.0


From 8a95eab50c317130c31b78ca449f30a57ffa5bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:18 +0000
Subject: [PATCH 22/22] fix: report date/time patterns the JDK fails to process
 as syntax errors

---
 src/main/java/io/fastprintf/Compiler.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index 2683972..665129a 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -181,7 +181,8 @@ final class Compiler {
 
     try {
       return DateTimeFormatter.ofPattern(pattern);
-    } catch (IllegalArgumentException e) {
+    } catch (IllegalArgumentException | ClassCastException e) {
+      // Padding letters next to adjacent numeric fields, e.g. "ppMMdd", fail with a cast in the JDK
       throw new PrintfSyntaxException(
           "Invalid date/time pattern: '" + pattern + "'", source, patternStart, e);
     }
-- 
2.43.0

