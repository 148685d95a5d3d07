/// odd chunks of `step` elements of a slice with their even neighbours
pub struct OverlappingChunksIterator<'a, T> {
    head: &'a [T],
    remainder: &'a mut [T],
}

impl<'a, T> OverlappingChunksIterator<'a, T> {
    pub fn from_slice(slice: &'a mut [T], step: usize) -> OverlappingChunksIterator<'a, T> {
        if step < slice.len() {
            let (head, remainder) = slice.split_at_mut(step);
            OverlappingChunksIterator { head, remainder }
        } else {
            OverlappingChunksIterator { head: &[], remainder: &mut [] }
        }
    }
}

impl<'a, T> Iterator for OverlappingChunksIterator<'a, T> {
    type Item = (&'a [T], &'a mut [T], &'a [T]);

    fn next(&mut self) -> Option<Self::Item> {
        let left = self.head;
        let step = left.len();
        let rest = std::mem::replace(&mut self.remainder, &mut []);
        if rest.len() == 0 {
            return None;
        }
        if rest.len() <= step {
            return Some((left, rest, &[]));
        }
        let (middle, after) = rest.split_at_mut(step);
        if after.len() <= step {
            return Some((left, middle, after));
        }
        let (right, remainder) = after.split_at_mut(step);
        self.head = right;
        self.remainder = remainder;
        Some((left, middle, right))
    }
}
