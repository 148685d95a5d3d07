use std::{
    marker::PhantomData,
    ops::{Index, IndexMut},
};

pub struct Image<'a, T> {
    data: &'a mut [T],
    size: (usize, usize),
    channels: usize,
}

impl<'a, T> Image<'a, T> {
    pub fn from_slice(data: &'a mut [T], size: (usize, usize), channels: usize) -> Image<'a, T> {
        let enough = match size.0.checked_mul(size.1) {
            Some(plane) => match plane.checked_mul(channels) {
                Some(need) => need <= data.len(),
                None => false,
            },
            None => false,
        };
        assert!(enough);
        Image { data, size, channels }
    }

    pub fn into_chunks_mut(self, chunk_size: usize, step: usize) -> ImageChunkIteratorMut<'a, T> {
        ImageChunkIteratorMut {
            state: ImageChunkIteratorState {
                chunk_size,
                step,
                x: 0,
                y: 0,
                channel: 0,
                width: self.size.0,
                height: self.size.1,
                channels: self.channels,
            },
            data: self.data,
        }
    }
}

struct ImageChunkIteratorState {
    chunk_size: usize,
    step: usize,
    pub x: usize,
    pub y: usize,
    channel: usize,
    width: usize,
    height: usize,
    channels: usize,
}

pub struct ImageChunkIteratorMut<'a, T> {
    data: &'a mut [T],
    state: ImageChunkIteratorState,
}

/// one block: rows y_range, columns x_range of a channel that starts at `channel_start`
pub struct ImageChunkMut<'a, T> {
    data_ptr: *mut T,
    data_len: usize,
    phantom_data: PhantomData<&'a T>,
    image_width: usize,
    channel_size: usize,
    channel_start: usize,

    pub x_range: (usize, usize),
    pub y_range: (usize, usize),
    pub channel: usize,
    pub step: usize,
}

impl<T> ImageChunkMut<'_, T> {
    pub unsafe fn get_unchecked(&self, y: usize, x: usize) -> &T {
        &*self.data_ptr.add(self.channel_start + y * self.image_width + x)
    }

    pub unsafe fn get_unchecked_mut(&mut self, y: usize, x: usize) -> &mut T {
        &mut *self.data_ptr.add(self.channel_start + y * self.image_width + x)
    }

    /// positions this block's encoder owns at its step, plus its DC
    fn writeable(&self, y: usize, x: usize) -> bool {
        if (y, x) == (self.y_range.0, self.x_range.0) {
            return true;
        }
        if y % self.step != 0 {
            return false;
        }
        let x_step = if (y & self.step) != 0 { self.step } else { self.step * 2 };
        (x + (x_step - self.step)) % x_step == 0
    }

    fn owned(&self, y: usize, x: usize) -> bool {
        self.x_range.0 <= x && x < self.x_range.1 && self.y_range.0 <= y && y < self.y_range.1
    }
}

impl<T> Index<(usize, usize)> for ImageChunkMut<'_, T> {
    type Output = T;

    fn index(&self, (y, x): (usize, usize)) -> &Self::Output {
        let index = self.channel_start + y * self.image_width + x;
        assert!(self.owned(y, x) || !self.writeable(y, x));
        assert!(index < self.channel_start + self.channel_size);
        let data = unsafe { std::slice::from_raw_parts_mut(self.data_ptr, self.data_len) };
        &data[index]
    }
}

impl<T> IndexMut<(usize, usize)> for ImageChunkMut<'_, T> {
    fn index_mut(&mut self, (y, x): (usize, usize)) -> &mut Self::Output {
        let index = self.channel_start + y * self.image_width + x;
        assert!(self.owned(y, x));
        assert!(self.writeable(y, x));
        assert!(index < self.channel_start + self.channel_size);
        let data = unsafe { std::slice::from_raw_parts_mut(self.data_ptr, self.data_len) };
        &mut data[index]
    }
}

impl<'a, T> Iterator for ImageChunkIteratorMut<'a, T> {
    type Item = ImageChunkMut<'a, T>;

    /// channel by channel, row of blocks by row of blocks, left to right
    fn next(&mut self) -> Option<Self::Item> {
        let s = &mut self.state;
        if s.channel >= s.channels {
            return None;
        }
        let (x, y, channel) = (s.x, s.y, s.channel);
        s.x = x + s.chunk_size;
        if s.x >= s.width {
            s.x = 0;
            s.y = y + s.chunk_size;
        }
        if s.y >= s.height {
            s.y = 0;
            s.channel = channel + 1;
        }
        let plane = s.width * s.height;
        Some(ImageChunkMut {
            data_ptr: self.data.as_mut_ptr(),
            data_len: self.data.len(),
            phantom_data: PhantomData,
            image_width: s.width,
            channel_size: plane,
            channel_start: channel * s.width * s.height,
            x_range: (x, s.width.min(x + s.chunk_size)),
            y_range: (y, s.height.min(y + s.chunk_size)),
            channel,
            step: s.step,
        })
    }
}
