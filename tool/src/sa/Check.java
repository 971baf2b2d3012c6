package sa;

/** One property. */
abstract class Check {
    abstract String explanation();
    abstract void run(Ctx c);
    /** assumptions the verdict rests on, beyond the common ones */
    java.util.List<String> assumptions() { return java.util.List.of(); }
}
