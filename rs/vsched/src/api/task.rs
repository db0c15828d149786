/// A progress report and its parts.
#[derive(Clone)]
pub struct Progress(tokengeex::Task);
pub struct Local(tokengeex::LocalTask);

impl Progress {
    pub fn start(samples: usize) -> Progress {
        let t = tokengeex::Task::new("step", samples, 1);
        t.start();
        Progress(t)
    }
    pub fn local(&self, n: usize) -> Local {
        Local(self.0.local(n))
    }
    pub fn finish(&self) {
        self.0.finish()
    }
}

impl Local {
    pub fn record(&mut self, bytes: usize) {
        self.0.record(bytes)
    }
    #[allow(unused_mut)]
    pub fn finish(mut self) {
        self.0.finish()
    }
}
