package com.github.sidhant92.boolparser;
import java.math.*;
import java.time.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;
import java.util.stream.*;
/** Library idioms, analysed by the tool and compared with what the JDK gives: the rules and stubs of the analysis must agree with the library. */
public class Snips {
    enum Col { RED, GREEN { @Override int v() { return 7; } }, BLUE; int v() { return ordinal(); } }
    interface Shape { default String nm() { return "shape " + area(); } int area(); }
    static class Sq implements Shape { final int s; Sq(int s) { this.s = s; } public int area() { return s * s; } @Override public boolean equals(Object o) { return o instanceof Sq && ((Sq) o).s == s; } @Override public int hashCode() { return s; } @Override public String toString() { return "sq" + s; } }
    static List<Integer> nums() { return Arrays.asList(5, 3, 8, 3, 1, 8, 8); }
    static List<String> words() { return Arrays.asList("pear", "fig", "apple", "kiwi", "fig"); }

    public static Object groupingBy() { Map<Integer, List<String>> m = words().stream().collect(Collectors.groupingBy(String::length)); return m.get(3) + "" + m.get(4) + m.get(5) + m.size(); }
    public static Object groupingCount() { Map<Integer, Long> m = nums().stream().collect(Collectors.groupingBy(Function.identity(), LinkedHashMap::new, Collectors.counting())); return m.toString(); }
    public static Object groupingMap() { return nums().stream().collect(Collectors.groupingBy(x -> x % 2, TreeMap::new, Collectors.mapping(x -> "n" + x, Collectors.toList()))).toString(); }
    public static Object toMapMerge() { Map<String, Integer> m = words().stream().collect(Collectors.toMap(w -> w, w -> 1, Integer::sum, LinkedHashMap::new)); return m.toString(); }
    public static Object toMapDup() { try { words().stream().collect(Collectors.toMap(w -> w, w -> 1)); return "no"; } catch (IllegalStateException e) { return "dup"; } }
    public static Object partition() { Map<Boolean, List<Integer>> m = nums().stream().collect(Collectors.partitioningBy(x -> x > 4)); return m.get(true) + "/" + m.get(false); }
    public static Object joining() { return words().stream().collect(Collectors.joining(",", "<", ">")); }
    public static Object toSetSize() { return nums().stream().collect(Collectors.toSet()).size(); }
    public static Object toColl() { return nums().stream().collect(Collectors.toCollection(TreeSet::new)).toString(); }
    public static Object reducing() { return nums().stream().collect(Collectors.reducing(0, x -> x * 2, Integer::sum)); }
    public static Object summing() { return nums().stream().collect(Collectors.summingInt(x -> x)); }
    public static Object summingL() { return nums().stream().collect(Collectors.summingLong(x -> x)); }
    public static Object counting() { return nums().stream().collect(Collectors.counting()); }
    public static Object maxBy() { return nums().stream().collect(Collectors.maxBy(Comparator.naturalOrder())).get(); }
    public static Object minBy() { return words().stream().collect(Collectors.minBy(Comparator.comparing(String::length))).get(); }
    public static Object andThenC() { return nums().stream().collect(Collectors.collectingAndThen(Collectors.toList(), List::size)); }
    public static Object stats() { IntSummaryStatistics s = nums().stream().mapToInt(x -> x).summaryStatistics(); return s.getMin() + " " + s.getMax() + " " + s.getSum() + " " + s.getCount(); }
    public static Object sortedRev() { return nums().stream().sorted(Comparator.reverseOrder()).collect(Collectors.toList()).toString(); }
    public static Object sortedCmp() { return words().stream().sorted(Comparator.comparing(String::length).thenComparing(Comparator.naturalOrder())).collect(Collectors.toList()).toString(); }
    public static Object sortedStable() { return words().stream().sorted(Comparator.comparingInt(String::length)).map(String::toUpperCase).reduce("", String::concat); }
    public static Object distinctLimit() { return nums().stream().distinct().skip(1).limit(2).map(String::valueOf).collect(Collectors.joining("-")); }
    public static Object flat() { return Stream.of(nums(), Arrays.asList(1, 2)).flatMap(List::stream).filter(x -> x < 4).count(); }
    public static Object intRange() { return IntStream.range(0, 5).map(i -> i * i).sum() + IntStream.rangeClosed(1, 3).boxed().map(Object::toString).collect(Collectors.joining()); }
    public static Object iterateS() { return Stream.iterate(1, x -> x * 3).limit(4).map(x -> x + ";").collect(Collectors.joining()); }
    public static Object matches() { return nums().stream().anyMatch(x -> x == 8) + "" + nums().stream().allMatch(x -> x > 0) + nums().stream().noneMatch(x -> x > 9) + Stream.<Integer>empty().allMatch(x -> false); }
    public static Object reduce1() { return nums().stream().reduce(Integer::max).get() + nums().stream().reduce(100, (a, b) -> a - b); }
    public static Object reduce3() { return words().stream().reduce(0, (n, w) -> n + w.length(), Integer::sum); }
    public static Object toArr() { return Arrays.toString(nums().stream().toArray(Integer[]::new)); }
    public static Object intArr() { return Arrays.toString(nums().stream().mapToInt(Integer::intValue).sorted().toArray()); }
    public static Object avgI() { return nums().stream().mapToInt(x -> x).average().getAsDouble() > 5 ? "big" : "small"; }
    public static Object peekS() { List<Integer> l = new ArrayList<>(); nums().stream().peek(l::add).filter(x -> x > 5).findFirst(); return l.toString(); }
    public static Object lazyS() { int[] n = {0}; Stream<Integer> s = nums().stream().map(x -> { n[0]++; return x; }); return n[0] + "" + s.findFirst().get() + n[0]; }
    public static Object reuse() { Stream<Integer> s = nums().stream(); s.count(); try { s.count(); return "ok"; } catch (IllegalStateException e) { return "used"; } }
    public static Object concatS() { return Stream.concat(Stream.of(1), Stream.of(2, 3)).map(x -> "" + x).collect(Collectors.joining("+")); }
    public static Object mapToObj() { return IntStream.of(3, 1, 2).mapToObj(i -> words().get(i)).collect(Collectors.toList()).toString(); }

    public static Object opt1() { return Optional.of(3).map(x -> x + 1).filter(x -> x > 3).orElse(0) + Optional.<Integer>empty().orElseGet(() -> 9); }
    public static Object opt2() { try { return Optional.empty().orElseThrow(() -> new IllegalStateException("none")); } catch (IllegalStateException e) { return e.getMessage(); } }
    public static Object opt3() { StringBuilder b = new StringBuilder(); Optional.of("x").ifPresent(b::append); Optional.ofNullable((String) null).ifPresent(b::append); return b.toString(); }
    public static Object opt4() { return Optional.of("a").flatMap(x -> Optional.of(x + "b")).equals(Optional.of("ab")); }
    public static Object opt5() { try { Optional.of(null); return "ok"; } catch (NullPointerException e) { return "npe"; } }
    public static Object opt6() { try { Optional.empty().get(); return "ok"; } catch (NoSuchElementException e) { return "none"; } }
    public static Object optMapNull() { return Optional.of("a").map(x -> (String) null).isPresent(); }

    public static Object hm() { Map<String, Integer> m = new HashMap<>(); for (String w : words()) m.merge(w, 1, Integer::sum); return m.get("fig") + "" + m.size() + m.getOrDefault("zz", -1) + m.containsKey("kiwi"); }
    public static Object hmCompute() { Map<String, Integer> m = new LinkedHashMap<>(); m.computeIfAbsent("a", k -> 1); m.computeIfPresent("a", (k, v) -> v + 5); m.compute("b", (k, v) -> v == null ? 0 : v); m.computeIfPresent("a", (k, v) -> null); m.putIfAbsent("b", 9); return m.toString(); }
    public static Object hmNull() { Map<String, String> m = new HashMap<>(); m.put(null, "n"); m.put("k", null); return m.get(null) + m.containsKey("k") + m.get("k") + m.putIfAbsent("k", "v") + m.get("k"); }
    public static Object hmIter() { Map<Integer, String> m = new LinkedHashMap<>(); for (int i = 0; i < 12; i++) m.put(i, "v" + i); m.keySet().removeIf(k -> k % 3 == 0); m.entrySet().iterator().next().setValue("set"); m.replaceAll((k, v) -> v + k); return m.values().toString() + m.keySet().contains(3); }
    public static Object hmEq() { Map<Integer, String> a = new HashMap<>(), b = new TreeMap<>(); a.put(1, "x"); a.put(2, "y"); b.put(2, "y"); b.put(1, "x"); return a.equals(b) + "" + a.entrySet().equals(b.entrySet()); }
    public static Object lhmAccess() { LinkedHashMap<String, Integer> m = new LinkedHashMap<String, Integer>(4, 0.75f, true) { @Override protected boolean removeEldestEntry(Map.Entry<String, Integer> e) { return size() > 2; } }; m.put("a", 1); m.put("b", 2); m.get("a"); m.put("c", 3); return m.keySet().toString(); }
    public static Object tm() { TreeMap<Integer, String> m = new TreeMap<>(Comparator.reverseOrder()); for (int x : nums()) m.put(x, "" + x); return m.firstKey() + m.toString() + m.lastEntry().getValue(); }
    public static Object tm2() { TreeMap<String, Integer> m = new TreeMap<>(); for (String w : words()) m.put(w, w.length()); return m.firstEntry().getKey() + m.size(); }
    public static Object em() { EnumMap<Col, String> m = new EnumMap<>(Col.class); m.put(Col.BLUE, "b"); m.put(Col.RED, "r"); return m.toString() + m.get(Col.GREEN); }
    public static Object es() { return EnumSet.of(Col.BLUE, Col.RED).toString() + EnumSet.complementOf(EnumSet.of(Col.RED)) + EnumSet.allOf(Col.class).size() + EnumSet.noneOf(Col.class) + EnumSet.range(Col.RED, Col.GREEN); }
    public static Object enums() { return Col.valueOf("GREEN").v() + Col.BLUE.v() + Col.RED.name() + Col.values().length + Col.GREEN.compareTo(Col.BLUE) + Col.GREEN.getDeclaringClass().getSimpleName(); }
    public static Object enumBad() { try { return Col.valueOf("PINK"); } catch (IllegalArgumentException e) { return "bad"; } }
    public static Object enumSwitch() { String r = ""; for (Col c : Col.values()) switch (c) { case RED: r += "r"; case GREEN: r += "g"; break; default: r += "d"; } return r; }
    public static Object strSwitch() { String r = ""; for (String w : words()) switch (w) { case "fig": r += 1; break; case "kiwi": r += 2; break; default: r += 3; } return r; }
    public static Object hs() { Set<Object> s = new HashSet<>(nums()); s.add(null); return s.size() + "" + s.contains(8) + s.remove(5) + s.remove(5) + s.containsAll(Arrays.asList(1, 3)) + s.retainAll(Arrays.asList(1, 3)) + s.size(); }
    public static Object hsEq() { return new HashSet<>(Arrays.asList(1, 2)).equals(new LinkedHashSet<>(Arrays.asList(2, 1))) + "" + Collections.disjoint(nums(), Arrays.asList(9, 2)); }
    public static Object setObj() { Set<Object> s = new HashSet<>(); s.add(new Sq(2)); s.add(new Sq(2)); s.add(new Sq(3)); return s.size() + "" + s.contains(new Sq(3)) + new Sq(4).nm(); }
    public static Object chm() { ConcurrentHashMap<String, Integer> m = new ConcurrentHashMap<>(); m.put("a", 1); m.putIfAbsent("a", 5); m.merge("a", 2, Integer::sum); try { m.put(null, 1); return "ok"; } catch (NullPointerException e) { return m.get("a") + "" + m.mappingCount(); } }
    public static Object alist() { List<Integer> l = new ArrayList<>(nums()); l.remove(0); l.remove(Integer.valueOf(8)); l.add(1, 42); l.set(0, 7); l.removeIf(x -> x == 8); l.addAll(Arrays.asList(1, 2)); return l.toString() + l.indexOf(42) + l.lastIndexOf(1) + l.contains(99); }
    public static Object sub() { List<Integer> l = new ArrayList<>(nums()); l.subList(1, 3).clear(); return l.toString() + l.subList(1, 3); }
    public static Object cme() { List<Integer> l = new ArrayList<>(nums()); try { for (Integer x : l) if (x == 3) l.remove(x); return "ok"; } catch (ConcurrentModificationException e) { return "cme"; } }
    public static Object listIt() { List<Integer> l = new ArrayList<>(nums()); ListIterator<Integer> it = l.listIterator(l.size()); String r = ""; while (it.hasPrevious()) { int x = it.previous(); r += x; if (x == 3) it.remove(); else if (x == 5) it.set(6); } return r + l; }
    public static Object itRemove() { List<Integer> l = new LinkedList<>(nums()); for (Iterator<Integer> it = l.iterator(); it.hasNext(); ) if (it.next() == 8) it.remove(); return l.toString(); }
    public static Object deque() { Deque<Integer> d = new ArrayDeque<>(); d.push(1); d.push(2); d.addLast(3); d.offerFirst(4); return d.pop() + "" + d.peek() + d.pollLast() + d.size() + d; }
    public static Object stack() { Stack<String> s = new Stack<>(); s.push("a"); s.push("b"); s.add("c"); return s.pop() + s.peek() + s.size() + s.search("a") + s.empty(); }
    public static Object stackEmpty() { try { new Stack<String>().pop(); return "ok"; } catch (EmptyStackException e) { return "empty"; } }
    public static Object linked() { LinkedList<Integer> l = new LinkedList<>(nums()); l.removeFirst(); l.removeLast(); l.addFirst(0); return l.getFirst() + "" + l.getLast() + l.pollFirst() + l; }
    public static Object pq() { PriorityQueue<Integer> q = new PriorityQueue<>(nums()); String r = ""; while (!q.isEmpty()) r += q.poll(); return r; }
    public static Object coll() { List<Integer> l = new ArrayList<>(nums()); Collections.sort(l); Collections.reverse(l); Collections.swap(l, 0, 6); return l.toString() + Collections.max(l) + Collections.min(l) + Collections.frequency(l, 8) + Collections.nCopies(2, "x") + Collections.emptyList().size() + Collections.singletonList(1); }
    public static Object unmod() { try { Collections.unmodifiableList(new ArrayList<>(nums())).add(1); return "ok"; } catch (UnsupportedOperationException e) { return "unsup"; } }
    public static Object asList() { try { nums().add(1); return "ok"; } catch (UnsupportedOperationException e) { return "unsup"; } }
    public static Object oob() { try { nums().get(7); return "ok"; } catch (IndexOutOfBoundsException e) { return "oob"; } }
    public static Object arr() { int[] a = {3, 1, 2}; Arrays.sort(a); int[] b = Arrays.copyOf(a, 5); int[] c = a.clone(); c[0] = 9; System.arraycopy(a, 0, b, 2, 3); return Arrays.toString(a) + Arrays.toString(b) + c[0] + Arrays.equals(a, new int[]{1, 2, 3}) + Arrays.asList(1, 2).equals(Arrays.asList(1, 2)); }
    public static Object arr2() { String[] a = {"b", "a"}; Arrays.sort(a); Object[] o = a; try { o[0] = 1; return "ok"; } catch (ArrayStoreException e) { return a[0] + o.length; } }
    public static Object fillA() { char[] c = new char[3]; Arrays.fill(c, 'z'); c[1] = 'y'; return new String(c) + String.valueOf(c, 1, 2) + c.length; }
    public static Object listEq() { return new ArrayList<>(nums()).equals(new LinkedList<>(nums())) + "" + new ArrayList<>(nums()).hashCode(); }

    public static Object str1() { String s = "Hello, World"; return s.substring(7) + s.indexOf('o') + s.lastIndexOf("o") + s.charAt(1) + s.replace('l', 'L') + s.toLowerCase() + s.contains("World") + s.startsWith("Hell") + s.endsWith("x") + s.trim().length() + s.isEmpty() + s.compareTo("Help") + s.equalsIgnoreCase("hello, world"); }
    public static Object str2() { return Arrays.toString("a.b..c".split("\\.")) + Arrays.toString("x,y,".split(",")) + Arrays.toString("a b  c".split(" +", 2)) + "abc".matches("[a-c]+") + "a1b2".replaceAll("[0-9]", "#") + "aXbX".replaceFirst("X", "-"); }
    public static Object str3() { return String.join("/", words()) + String.join("+", "a", "b") + "ab".concat("c") + "abc".chars().sum() + new String("q").intern() + String.valueOf((Object) null) + "x".repeat(3); }
    public static Object sb() { StringBuilder b = new StringBuilder("abc"); b.append(1).append('x').append(2.5).append(true).append((Object) null).insert(0, "<").reverse(); b.setLength(4); b.setCharAt(0, 'Q'); b.deleteCharAt(1); return b.toString() + b.length() + b.indexOf("l") + b.charAt(0); }
    public static Object sj() { StringJoiner j = new StringJoiner(", ", "[", "]"); j.setEmptyValue("none"); String e = j.toString(); j.add("a").add("b"); return e + j + j.length(); }
    public static Object tok() { StringTokenizer t = new StringTokenizer("a.b..c", "."); String r = "" + t.countTokens(); while (t.hasMoreTokens()) r += "|" + t.nextToken(); return r; }
    public static Object rx() { java.util.regex.Pattern p = java.util.regex.Pattern.compile("(\\d+)-(\\d+)"); return p.matcher("12-34").matches() + "" + p.split("x1-2y").length + java.util.regex.Pattern.matches("a*", "aaa"); }
    public static Object chars() { return Character.isDigit('4') + "" + Character.isLetter('_') + Character.toUpperCase('q') + Character.isWhitespace(' ') + (char) ('a' + 2) + (int) 'A' + Character.getNumericValue('7'); }
    public static Object concatIndy() { int i = 5; long l = 6; char c = 'c'; double d = 0.5; float f = 1.25f; Object o = null; return i + "a" + l + c + d + f + o + true; }
    public static Object boxing() { Integer a = 127, b = 127; Long l = 5L; return a.equals(b) + "" + l.equals(5) + a.hashCode() + Integer.compare(3, 9) + Long.valueOf(7).intValue() + Integer.parseInt("-12") + Integer.toString(255) + Integer.toHexString(255) + Boolean.parseBoolean("TRUE") + Double.parseDouble("1e3") + Integer.MAX_VALUE; }
    public static Object parseBad() { String r = ""; for (String s : new String[]{"", " 1", "1.5", "2147483648", "+7", "-0"}) try { r += Integer.parseInt(s); } catch (NumberFormatException e) { r += "x"; } return r; }
    public static Object ints() { int x = Integer.MAX_VALUE; long y = x + 1L; x++; return x + " " + y + " " + (x >>> 28) + " " + (x >> 28) + " " + (-7 / 2) + " " + (-7 % 2) + " " + Math.floorMod(-7, 2) + " " + Math.floorDiv(-7, 2) + " " + (5 & 3 | 8 ^ 2) + " " + (~5) + " " + (1 << 33) + " " + (1L << 33) + " " + (byte) 200 + " " + (short) 70000 + " " + (char) 98 + " " + (int) 3.99 + " " + (int) -3.99 + " " + (long) 1e19 + " " + (int) Double.NaN; }
    public static Object exact() { String r = ""; try { Math.addExact(Integer.MAX_VALUE, 1); } catch (ArithmeticException e) { r += "a"; } try { Math.toIntExact(1L << 40); } catch (ArithmeticException e) { r += "b"; } try { Math.multiplyExact(1L << 40, 1L << 40); } catch (ArithmeticException e) { r += "c"; } try { r += 1 / (r.length() - 3); } catch (ArithmeticException e) { r += "d"; } return r + Math.negateExact(5) + Math.abs(-4) + Math.max(2L, 3L) + Math.signum(-2.0); }
    public static Object dbl() { return (0.1 + 0.2 == 0.3) + "" + (1.0 / 0) + Double.compare(0.0, -0.0) + Double.isNaN(0.0 / 0) + Math.pow(2, 10) + Math.sqrt(2) + Math.round(2.5) + Math.round(-2.5) + Math.floor(-1.5) + Math.ceil(-1.5) + Math.rint(2.5) + (float) 0.1 + (0.1f == 0.1); }
    public static Object bd() { BigDecimal a = new BigDecimal("10.50"), b = new BigDecimal("3"); return a.add(b) + " " + a.subtract(b) + " " + a.multiply(b) + " " + a.divide(b, 3, RoundingMode.DOWN) + " " + a.negate() + " " + a.abs() + " " + a.scale() + " " + a.precision() + " " + a.stripTrailingZeros() + " " + a.toBigInteger() + " " + a.compareTo(new BigDecimal("10.5")) + a.equals(new BigDecimal("10.5")) + " " + a.setScale(0, RoundingMode.HALF_UP) + " " + a.max(b) + a.min(b) + " " + a.remainder(b) + " " + a.pow(2) + " " + a.signum() + a.intValue() + a.toPlainString() + " " + new BigDecimal("1E+3").toPlainString() + " " + new BigDecimal("1E+3") + BigDecimal.valueOf(2.50) + BigDecimal.valueOf(5, 2) + a.movePointLeft(1) + a.unscaledValue(); }
    public static Object bdRem() { return new BigDecimal("7.25").remainder(BigDecimal.ONE) + " " + new BigDecimal("-7.25").remainder(BigDecimal.ONE) + " " + new BigDecimal("-7.25").setScale(0, RoundingMode.FLOOR) + " " + new BigDecimal("-7.25").setScale(0, RoundingMode.CEILING) + " " + new BigDecimal("-7.25").setScale(1, RoundingMode.UP) + " " + Arrays.toString(new BigDecimal("7.25").divideAndRemainder(new BigDecimal("2"))); }
    public static Object bdErr() { String r = ""; try { new BigDecimal("1").divide(new BigDecimal("3")); } catch (ArithmeticException e) { r += "a"; } try { new BigDecimal("abc"); } catch (NumberFormatException e) { r += "b"; } try { new BigDecimal("1.5").toBigIntegerExact(); } catch (ArithmeticException e) { r += "c"; } try { new BigDecimal("3000000000").intValueExact(); } catch (ArithmeticException e) { r += "d"; } return r; }
    public static Object bi() { BigInteger a = new BigInteger("123456789012345678901234567890"), b = BigInteger.valueOf(97); return a.add(b) + " " + a.mod(b) + " " + a.negate().remainder(b) + " " + a.bitLength() + " " + a.longValue() + " " + a.compareTo(b) + b.pow(5) + b.gcd(BigInteger.TEN) + a.signum() + b.shiftLeft(3) + b.testBit(0) + b.isProbablePrime(5); }
    public static Object dates() { LocalDate d = LocalDate.of(2024, 2, 29); return d.plusYears(1) + " " + d.plusDays(1) + " " + d.getDayOfWeek() + " " + d.isBefore(LocalDate.MAX) + d.toEpochDay() + " " + java.time.temporal.ChronoUnit.DAYS.between(d, LocalDate.of(2025, 1, 1)) + " " + d.atStartOfDay() + " " + LocalDate.parse("2020-05-06").compareTo(d) + d.isLeapYear() + LocalDateTime.of(2020, 1, 2, 3, 4, 5).toLocalDate() + Period.between(d, LocalDate.of(2025, 3, 1)) + Duration.ofHours(25).toDays(); }
    public static Object dateBad() { try { LocalDate.parse("2023-02-30"); return "ok"; } catch (java.time.format.DateTimeParseException e) { return "bad"; } }

    public static Object tryFin() { String r = ""; try { try { r += "a"; throw new IllegalStateException("x"); } finally { r += "b"; } } catch (RuntimeException e) { r += e.getMessage(); } finally { r += "c"; } return r; }
    @SuppressWarnings("finally") public static Object finOver() { try { return "a"; } finally { return "b"; } }
    public static Object twr() { String[] r = {""}; class R implements AutoCloseable { final String n; R(String n) { this.n = n; } public void close() { r[0] += n; throw new IllegalArgumentException(n); } } try (R a = new R("a"); R b = new R("b")) { r[0] += "t"; } catch (IllegalArgumentException e) { r[0] += e.getMessage() + e.getSuppressed().length; } return r[0]; }
    public static Object multi() { String r = ""; for (int i = 0; i < 3; i++) try { if (i == 0) throw new IllegalArgumentException(); if (i == 1) ((Object) null).toString(); Object o = "s"; Integer x = (Integer) o; } catch (IllegalArgumentException | NullPointerException e) { r += "m"; } catch (ClassCastException e) { r += "c"; } return r; }
    public static Object labels() { String r = ""; outer: for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { if (j == i) continue outer; if (i == 3) break outer; r += i * j; } } return r; }
    public static Object loops() { int i = 0, s = 0; do { s += i; } while (++i < 5); while (true) { if (s > 20) break; s += 7; } for (int a = 0, b = 9; a < b; a++, b--) s += a * b; return s; }
    public static Object tern() { Integer n = null; Object o = true ? 1 : "s"; return (n == null ? "nul" : n) + "" + o + (o instanceof Integer ? "I" : "?"); }
    public static Object unboxNpe() { Integer n = null; try { int x = n; return x; } catch (NullPointerException e) { return "npe"; } }
    static int cnt; static int next() { return ++cnt; }
    public static Object evalOrder() { cnt = 0; int[] a = new int[5]; int i = 0; a[i] = i = 3; int r = next() + next() * next(); a[next() - 3] += 5; return Arrays.toString(a) + r + i; }
    public static Object recursion() { return fib(12) + "" + gcd(84, 36); }
    static int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); } static int gcd(int a, int b) { return b == 0 ? a : gcd(b, a % b); }
    public static Object closures() { List<Supplier<Integer>> l = new ArrayList<>(); for (int i = 0; i < 3; i++) { int k = i; l.add(() -> k * k); } int s = 0; for (Supplier<Integer> x : l) s += x.get(); return s; }
    public static Object funcs() { Function<Integer, Integer> f = x -> x + 1; BiFunction<Integer, Integer, Integer> g = Math::max; UnaryOperator<String> u = String::trim; Predicate<String> p = String::isEmpty; return f.compose(f).andThen(f).apply(1) + g.andThen(f).apply(3, 4) + u.apply(" z ") + p.negate().or(x -> false).test("") + BinaryOperator.<Integer>minBy(Comparator.naturalOrder()).apply(4, 2); }
    public static Object ctorRef() { Function<Integer, Sq> f = Sq::new; Supplier<List<String>> s = ArrayList::new; IntFunction<int[]> a = int[]::new; return f.apply(3) + "" + s.get().size() + a.apply(4).length; }
    public static Object anon() { Comparator<String> c = new Comparator<String>() { public int compare(String a, String b) { return b.compareTo(a); } }; List<String> l = new ArrayList<>(words()); l.sort(c); l.sort(c.reversed()); return l.toString() + c.compare("a", "b"); }
    public static Object nullsCmp() { List<String> l = new ArrayList<>(Arrays.asList("b", null, "a")); l.sort(Comparator.nullsFirst(Comparator.naturalOrder())); return l.toString(); }
    public static Object objs() { return Objects.equals(null, null) + "" + Objects.hash(1, 2) + Objects.toString(null, "d") + Objects.requireNonNullElse(null, "e") + Objects.isNull(1) + Objects.hashCode(null); }
    public static Object atomics() { AtomicInteger a = new AtomicInteger(1); a.incrementAndGet(); a.addAndGet(5); a.compareAndSet(7, 9); AtomicReference<String> r = new AtomicReference<>("x"); r.updateAndGet(s -> s + "y"); AtomicLong l = new AtomicLong(); l.getAndIncrement(); return a.get() + r.get() + l.get() + a.getAndSet(3) + a.accumulateAndGet(4, Integer::max); }
    public static Object clsOps() { Object o = 5; return o.getClass().getSimpleName() + (o.getClass() == Integer.class) + Number.class.isInstance(o) + Integer.class.cast(o) + Sq.class.getSimpleName() + Shape.class.isAssignableFrom(Sq.class); }
    public static Object mapStream() { Map<String, Integer> m = new LinkedHashMap<>(); m.put("a", 3); m.put("b", 9); m.put("c", 1); return m.entrySet().stream().sorted(Map.Entry.comparingByValue()).map(Map.Entry::getKey).collect(Collectors.joining()) + m.entrySet().stream().max(Map.Entry.<String, Integer>comparingByValue()).get().getKey() + m.values().stream().mapToInt(x -> x).sum(); }
    public static Object entries() { Map.Entry<String, Integer> e = new AbstractMap.SimpleEntry<>("k", 1); e.setValue(2); return e + "" + e.equals(new AbstractMap.SimpleImmutableEntry<>("k", 2)); }
    public static Object iface() { Shape s = () -> 6; Iterable<Integer> it = () -> nums().iterator(); int t = 0; for (int x : it) t += x; return s.nm() + t; }
    public static Object varargs() { return va() + va(1) + va(1, 2) + va((Object[]) new String[]{"a", "b", "c"}); } static int va(Object... o) { return o.length; }
    public static Object bits() { BitSet b = new BitSet(); b.set(3); b.set(5); return b.cardinality() + "" + b.get(3) + Integer.bitCount(7) + Long.numberOfTrailingZeros(8) + Integer.highestOneBit(100); }
    public static Object cow() { List<Integer> l = new CopyOnWriteArrayList<>(nums()); for (Integer x : l) if (x == 8) l.remove(x); return l.toString(); }
    public static Object listForEach() { StringBuilder b = new StringBuilder(); nums().forEach(b::append); new TreeMap<>(Collections.singletonMap("k", "v")).forEach((k, v) -> b.append(k).append(v)); return b.toString(); }
    public static Object replaceAllL() { List<Integer> l = new ArrayList<>(nums()); l.replaceAll(x -> x * 10); ListIterator<Integer> i = l.listIterator(); i.next(); i.add(77); return l.toString(); }
    public static Object hashOrder() { return new TreeSet<>(new HashSet<>(words())).toString() + new TreeSet<>(nums()).first(); }
    public static Object excChain() { try { try { throw new RuntimeException("in"); } catch (RuntimeException e) { throw new IllegalStateException("out", e); } } catch (IllegalStateException e) { return e.getCause().getMessage() + e.getMessage() + (e.getCause() instanceof RuntimeException); } }
    public static Object sync() { Object lock = new Object(); int x = 0; synchronized (lock) { x++; } return x; }
    static final Map<String, Integer> INIT; static { Map<String, Integer> m = new HashMap<>(); m.put("one", 1); INIT = Collections.unmodifiableMap(m); }
    public static Object statics() { return INIT.get("one") + "" + INIT.containsKey("two"); }
}
