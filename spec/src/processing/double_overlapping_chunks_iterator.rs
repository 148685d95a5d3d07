/// odd chunks of `step` elements with two even neighbours on each side
pub struct DoubleOverlappingChunks<'a, T> {
    pub prev_left: &'a [T],
    pub left: &'a [T],
    pub middle: &'a mut [T],
    pub right: &'a [T],
    pub next_right: &'a [T],
}

pub struct DoubleOverlappingChunksIterator<'a, T> {
    prev_left: &'a [T],
    left: &'a [T],
    middle: &'a mut [T],
    right: &'a [T],
    remainder: &'a mut [T],
}

/// the first `step` elements (or all) and what follows
fn cut<T>(slice: &mut [T], step: usize) -> (&mut [T], &mut [T]) {
    if slice.len() <= step {
        (slice, &mut [])
    } else {
        slice.split_at_mut(step)
    }
}

impl<'a, T> DoubleOverlappingChunksIterator<'a, T> {
    pub fn from_slice(slice: &'a mut [T], step: usize) -> DoubleOverlappingChunksIterator<'a, T> {
        if slice.len() <= step {
            return DoubleOverlappingChunksIterator {
                prev_left: &[],
                left: &[],
                middle: &mut [],
                right: &[],
                remainder: &mut [],
            };
        }
        let (left, rest) = slice.split_at_mut(step);
        let (middle, rest) = cut(rest, step);
        let (right, remainder) = cut(rest, step);
        DoubleOverlappingChunksIterator { prev_left: &[], left, middle, right, remainder }
    }
}

impl<'a, T> Iterator for DoubleOverlappingChunksIterator<'a, T> {
    type Item = DoubleOverlappingChunks<'a, T>;

    fn next(&mut self) -> Option<Self::Item> {
        let step = self.left.len();
        if self.middle.is_empty() {
            return None;
        }
        let middle = std::mem::replace(&mut self.middle, &mut []);
        let rest = std::mem::replace(&mut self.remainder, &mut []);
        if rest.is_empty() {
            return Some(DoubleOverlappingChunks {
                prev_left: self.prev_left,
                left: self.left,
                middle,
                right: self.right,
                next_right: &[],
            });
        }
        let (next_middle, rest) = cut(rest, step);
        let (next_right, rest) = cut(rest, step);
        let next_right: &'a [T] = next_right;
        let item = DoubleOverlappingChunks {
            prev_left: self.prev_left,
            left: self.left,
            middle,
            right: self.right,
            next_right,
        };
        self.prev_left = self.left;
        self.left = self.right;
        self.middle = next_middle;
        self.right = next_right;
        self.remainder = rest;
        Some(item)
    }
}
