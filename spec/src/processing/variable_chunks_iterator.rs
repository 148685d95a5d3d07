/// consecutive pieces of the listed sizes; the last one may be clipped; none once the data ends
pub struct VariableChunksIterator<'a, 'b, T> {
    slice: &'a [T],
    chunk_sizes: &'b [usize],
}

impl<'a, 'b, T> VariableChunksIterator<'a, 'b, T> {
    pub fn new(slice: &'a [T], chunk_sizes: &'b [usize]) -> VariableChunksIterator<'a, 'b, T> {
        VariableChunksIterator { slice, chunk_sizes }
    }
}

impl<'a, 'b, T> Iterator for VariableChunksIterator<'a, 'b, T> {
    type Item = &'a [T];

    fn next(&mut self) -> Option<Self::Item> {
        if self.chunk_sizes.is_empty() {
            return None;
        }
        let size = self.chunk_sizes[0];
        self.chunk_sizes = &self.chunk_sizes[1..];
        if self.slice.is_empty() {
            return None;
        }
        let all = self.slice;
        if all.len() <= size {
            self.slice = &[];
            return Some(all);
        }
        let (chunk, rest) = all.split_at(size);
        self.slice = rest;
        Some(chunk)
    }
}
