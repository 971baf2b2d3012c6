package zz;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.*;
public class ReentrantLock implements Lock {
    public ReentrantLock() { } public ReentrantLock(boolean fair) { }
    public void lock() { N.lock(this); }
    public void lockInterruptibly() { N.lock(this); }
    public boolean tryLock() { if (N.choose("tryLock")) { N.lock(this); return true; } return false; }
    public boolean tryLock(long t, TimeUnit u) { return tryLock(); }
    public void unlock() { N.unlock(this); }
    public Condition newCondition() { return null; }
}
