package zz;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.*;
/** read and write locks exclude each other: writers must hold the write lock, which is checked by treating both as one lock key per owner */
public class ReentrantReadWriteLock {
    final ReadLock r = new ReadLock(this); final WriteLock w = new WriteLock(this);
    public ReentrantReadWriteLock() { } public ReentrantReadWriteLock(boolean fair) { }
    public ReadLock readLock() { return r; }
    public WriteLock writeLock() { return w; }
    public static class ReadLock implements Lock {
        final ReentrantReadWriteLock o; ReadLock(ReentrantReadWriteLock o) { this.o = o; }
        public void lock() { N.lock(o); } public void lockInterruptibly() { N.lock(o); }
        public boolean tryLock() { if (N.choose("tryLock")) { N.lock(o); return true; } return false; }
        public boolean tryLock(long t, TimeUnit u) { return tryLock(); }
        public void unlock() { N.unlock(o); }
        public Condition newCondition() { return null; }
    }
    public static class WriteLock implements Lock {
        final ReentrantReadWriteLock o; WriteLock(ReentrantReadWriteLock o) { this.o = o; }
        public void lock() { N.lock(o); N.lock(this); } public void lockInterruptibly() { lock(); }
        public boolean tryLock() { if (N.choose("tryLock")) { lock(); return true; } return false; }
        public boolean tryLock(long t, TimeUnit u) { return tryLock(); }
        public void unlock() { N.unlock(this); N.unlock(o); }
        public Condition newCondition() { return null; }
    }
}
