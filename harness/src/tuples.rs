// Generated by gen_tuples.py: the type at each position of each tuple.
#[macro_export]
macro_rules! all_tuples {
    ($m:ident) => {
        $m! {
            [0]
            [0 0]
            [0 1]
            [0 0 0]
            [0 0 1]
            [0 1 0]
            [0 1 1]
            [0 1 2]
            [0 0 0 0]
            [0 0 0 1]
            [0 0 1 0]
            [0 0 1 1]
            [0 0 1 2]
            [0 1 0 0]
            [0 1 0 1]
            [0 1 0 2]
            [0 1 1 0]
            [0 1 1 1]
            [0 1 1 2]
            [0 1 2 0]
            [0 1 2 1]
            [0 1 2 2]
            [0 1 2 3]
            [0 0 0 0 0]
            [0 0 0 0 1]
            [0 0 0 1 0]
            [0 0 0 1 1]
            [0 0 0 1 2]
            [0 0 1 0 0]
            [0 0 1 0 1]
            [0 0 1 0 2]
            [0 0 1 1 0]
            [0 0 1 1 1]
            [0 0 1 1 2]
            [0 0 1 2 0]
            [0 0 1 2 1]
            [0 0 1 2 2]
            [0 0 1 2 3]
            [0 1 0 0 0]
            [0 1 0 0 1]
            [0 1 0 0 2]
            [0 1 0 1 0]
            [0 1 0 1 1]
            [0 1 0 1 2]
            [0 1 0 2 0]
            [0 1 0 2 1]
            [0 1 0 2 2]
            [0 1 0 2 3]
            [0 1 1 0 0]
            [0 1 1 0 1]
            [0 1 1 0 2]
            [0 1 1 1 0]
            [0 1 1 1 1]
            [0 1 1 1 2]
            [0 1 1 2 0]
            [0 1 1 2 1]
            [0 1 1 2 2]
            [0 1 1 2 3]
            [0 1 2 0 0]
            [0 1 2 0 1]
            [0 1 2 0 2]
            [0 1 2 0 3]
            [0 1 2 1 0]
            [0 1 2 1 1]
            [0 1 2 1 2]
            [0 1 2 1 3]
            [0 1 2 2 0]
            [0 1 2 2 1]
            [0 1 2 2 2]
            [0 1 2 2 3]
            [0 1 2 3 0]
            [0 1 2 3 1]
            [0 1 2 3 2]
            [0 1 2 3 3]
            [0 1 2 3 4]
            [0 1 2 3 4 5]
            [0 0 0 0 0 0]
            [5 4 3 2 1 0]
            [0 0 2 3 4 5]
            [1 1 2 3 4 5]
            [0 1 0 3 4 5]
            [2 1 2 3 4 5]
            [0 1 2 0 4 5]
            [3 1 2 3 4 5]
            [0 1 2 3 0 5]
            [4 1 2 3 4 5]
            [0 1 2 3 4 0]
            [5 1 2 3 4 5]
            [0 1 1 3 4 5]
            [0 2 2 3 4 5]
            [0 1 2 1 4 5]
            [0 3 2 3 4 5]
            [0 1 2 3 1 5]
            [0 4 2 3 4 5]
            [0 1 2 3 4 1]
            [0 5 2 3 4 5]
            [0 1 2 2 4 5]
            [0 1 3 3 4 5]
            [0 1 2 3 2 5]
            [0 1 4 3 4 5]
            [0 1 2 3 4 2]
            [0 1 5 3 4 5]
            [0 1 2 3 3 5]
            [0 1 2 4 4 5]
            [0 1 2 3 4 3]
            [0 1 2 5 4 5]
            [0 1 2 3 4 4]
            [0 1 2 3 5 5]
            [0 1 2 3 4 5 6]
            [0 0 0 0 0 0 0]
            [6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6]
            [1 1 2 3 4 5 6]
            [0 1 0 3 4 5 6]
            [2 1 2 3 4 5 6]
            [0 1 2 0 4 5 6]
            [3 1 2 3 4 5 6]
            [0 1 2 3 0 5 6]
            [4 1 2 3 4 5 6]
            [0 1 2 3 4 0 6]
            [5 1 2 3 4 5 6]
            [0 1 2 3 4 5 0]
            [6 1 2 3 4 5 6]
            [0 1 1 3 4 5 6]
            [0 2 2 3 4 5 6]
            [0 1 2 1 4 5 6]
            [0 3 2 3 4 5 6]
            [0 1 2 3 1 5 6]
            [0 4 2 3 4 5 6]
            [0 1 2 3 4 1 6]
            [0 5 2 3 4 5 6]
            [0 1 2 3 4 5 1]
            [0 6 2 3 4 5 6]
            [0 1 2 2 4 5 6]
            [0 1 3 3 4 5 6]
            [0 1 2 3 2 5 6]
            [0 1 4 3 4 5 6]
            [0 1 2 3 4 2 6]
            [0 1 5 3 4 5 6]
            [0 1 2 3 4 5 2]
            [0 1 6 3 4 5 6]
            [0 1 2 3 3 5 6]
            [0 1 2 4 4 5 6]
            [0 1 2 3 4 3 6]
            [0 1 2 5 4 5 6]
            [0 1 2 3 4 5 3]
            [0 1 2 6 4 5 6]
            [0 1 2 3 4 4 6]
            [0 1 2 3 5 5 6]
            [0 1 2 3 4 5 4]
            [0 1 2 3 6 5 6]
            [0 1 2 3 4 5 5]
            [0 1 2 3 4 6 6]
            [0 1 2 3 4 5 6 7]
            [0 0 0 0 0 0 0 0]
            [7 6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6 7]
            [1 1 2 3 4 5 6 7]
            [0 1 0 3 4 5 6 7]
            [2 1 2 3 4 5 6 7]
            [0 1 2 0 4 5 6 7]
            [3 1 2 3 4 5 6 7]
            [0 1 2 3 0 5 6 7]
            [4 1 2 3 4 5 6 7]
            [0 1 2 3 4 0 6 7]
            [5 1 2 3 4 5 6 7]
            [0 1 2 3 4 5 0 7]
            [6 1 2 3 4 5 6 7]
            [0 1 2 3 4 5 6 0]
            [7 1 2 3 4 5 6 7]
            [0 1 1 3 4 5 6 7]
            [0 2 2 3 4 5 6 7]
            [0 1 2 1 4 5 6 7]
            [0 3 2 3 4 5 6 7]
            [0 1 2 3 1 5 6 7]
            [0 4 2 3 4 5 6 7]
            [0 1 2 3 4 1 6 7]
            [0 5 2 3 4 5 6 7]
            [0 1 2 3 4 5 1 7]
            [0 6 2 3 4 5 6 7]
            [0 1 2 3 4 5 6 1]
            [0 7 2 3 4 5 6 7]
            [0 1 2 2 4 5 6 7]
            [0 1 3 3 4 5 6 7]
            [0 1 2 3 2 5 6 7]
            [0 1 4 3 4 5 6 7]
            [0 1 2 3 4 2 6 7]
            [0 1 5 3 4 5 6 7]
            [0 1 2 3 4 5 2 7]
            [0 1 6 3 4 5 6 7]
            [0 1 2 3 4 5 6 2]
            [0 1 7 3 4 5 6 7]
            [0 1 2 3 3 5 6 7]
            [0 1 2 4 4 5 6 7]
            [0 1 2 3 4 3 6 7]
            [0 1 2 5 4 5 6 7]
            [0 1 2 3 4 5 3 7]
            [0 1 2 6 4 5 6 7]
            [0 1 2 3 4 5 6 3]
            [0 1 2 7 4 5 6 7]
            [0 1 2 3 4 4 6 7]
            [0 1 2 3 5 5 6 7]
            [0 1 2 3 4 5 4 7]
            [0 1 2 3 6 5 6 7]
            [0 1 2 3 4 5 6 4]
            [0 1 2 3 7 5 6 7]
            [0 1 2 3 4 5 5 7]
            [0 1 2 3 4 6 6 7]
            [0 1 2 3 4 5 6 5]
            [0 1 2 3 4 7 6 7]
            [0 1 2 3 4 5 6 6]
            [0 1 2 3 4 5 7 7]
            [0 1 2 3 4 5 6 7 8]
            [0 0 0 0 0 0 0 0 0]
            [8 7 6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6 7 8]
            [1 1 2 3 4 5 6 7 8]
            [0 1 0 3 4 5 6 7 8]
            [2 1 2 3 4 5 6 7 8]
            [0 1 2 0 4 5 6 7 8]
            [3 1 2 3 4 5 6 7 8]
            [0 1 2 3 0 5 6 7 8]
            [4 1 2 3 4 5 6 7 8]
            [0 1 2 3 4 0 6 7 8]
            [5 1 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 0 7 8]
            [6 1 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 0 8]
            [7 1 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 7 0]
            [8 1 2 3 4 5 6 7 8]
            [0 1 1 3 4 5 6 7 8]
            [0 2 2 3 4 5 6 7 8]
            [0 1 2 1 4 5 6 7 8]
            [0 3 2 3 4 5 6 7 8]
            [0 1 2 3 1 5 6 7 8]
            [0 4 2 3 4 5 6 7 8]
            [0 1 2 3 4 1 6 7 8]
            [0 5 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 1 7 8]
            [0 6 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 1 8]
            [0 7 2 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 7 1]
            [0 8 2 3 4 5 6 7 8]
            [0 1 2 2 4 5 6 7 8]
            [0 1 3 3 4 5 6 7 8]
            [0 1 2 3 2 5 6 7 8]
            [0 1 4 3 4 5 6 7 8]
            [0 1 2 3 4 2 6 7 8]
            [0 1 5 3 4 5 6 7 8]
            [0 1 2 3 4 5 2 7 8]
            [0 1 6 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 2 8]
            [0 1 7 3 4 5 6 7 8]
            [0 1 2 3 4 5 6 7 2]
            [0 1 8 3 4 5 6 7 8]
            [0 1 2 3 3 5 6 7 8]
            [0 1 2 4 4 5 6 7 8]
            [0 1 2 3 4 3 6 7 8]
            [0 1 2 5 4 5 6 7 8]
            [0 1 2 3 4 5 3 7 8]
            [0 1 2 6 4 5 6 7 8]
            [0 1 2 3 4 5 6 3 8]
            [0 1 2 7 4 5 6 7 8]
            [0 1 2 3 4 5 6 7 3]
            [0 1 2 8 4 5 6 7 8]
            [0 1 2 3 4 4 6 7 8]
            [0 1 2 3 5 5 6 7 8]
            [0 1 2 3 4 5 4 7 8]
            [0 1 2 3 6 5 6 7 8]
            [0 1 2 3 4 5 6 4 8]
            [0 1 2 3 7 5 6 7 8]
            [0 1 2 3 4 5 6 7 4]
            [0 1 2 3 8 5 6 7 8]
            [0 1 2 3 4 5 5 7 8]
            [0 1 2 3 4 6 6 7 8]
            [0 1 2 3 4 5 6 5 8]
            [0 1 2 3 4 7 6 7 8]
            [0 1 2 3 4 5 6 7 5]
            [0 1 2 3 4 8 6 7 8]
            [0 1 2 3 4 5 6 6 8]
            [0 1 2 3 4 5 7 7 8]
            [0 1 2 3 4 5 6 7 6]
            [0 1 2 3 4 5 8 7 8]
            [0 1 2 3 4 5 6 7 7]
            [0 1 2 3 4 5 6 8 8]
            [0 1 2 3 4 5 6 7 8 9]
            [0 0 0 0 0 0 0 0 0 0]
            [9 8 7 6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6 7 8 9]
            [1 1 2 3 4 5 6 7 8 9]
            [0 1 0 3 4 5 6 7 8 9]
            [2 1 2 3 4 5 6 7 8 9]
            [0 1 2 0 4 5 6 7 8 9]
            [3 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 0 5 6 7 8 9]
            [4 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 0 6 7 8 9]
            [5 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 0 7 8 9]
            [6 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 0 8 9]
            [7 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 0 9]
            [8 1 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 0]
            [9 1 2 3 4 5 6 7 8 9]
            [0 1 1 3 4 5 6 7 8 9]
            [0 2 2 3 4 5 6 7 8 9]
            [0 1 2 1 4 5 6 7 8 9]
            [0 3 2 3 4 5 6 7 8 9]
            [0 1 2 3 1 5 6 7 8 9]
            [0 4 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 1 6 7 8 9]
            [0 5 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 1 7 8 9]
            [0 6 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 1 8 9]
            [0 7 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 1 9]
            [0 8 2 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 1]
            [0 9 2 3 4 5 6 7 8 9]
            [0 1 2 2 4 5 6 7 8 9]
            [0 1 3 3 4 5 6 7 8 9]
            [0 1 2 3 2 5 6 7 8 9]
            [0 1 4 3 4 5 6 7 8 9]
            [0 1 2 3 4 2 6 7 8 9]
            [0 1 5 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 2 7 8 9]
            [0 1 6 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 2 8 9]
            [0 1 7 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 2 9]
            [0 1 8 3 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 2]
            [0 1 9 3 4 5 6 7 8 9]
            [0 1 2 3 3 5 6 7 8 9]
            [0 1 2 4 4 5 6 7 8 9]
            [0 1 2 3 4 3 6 7 8 9]
            [0 1 2 5 4 5 6 7 8 9]
            [0 1 2 3 4 5 3 7 8 9]
            [0 1 2 6 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 3 8 9]
            [0 1 2 7 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 3 9]
            [0 1 2 8 4 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 3]
            [0 1 2 9 4 5 6 7 8 9]
            [0 1 2 3 4 4 6 7 8 9]
            [0 1 2 3 5 5 6 7 8 9]
            [0 1 2 3 4 5 4 7 8 9]
            [0 1 2 3 6 5 6 7 8 9]
            [0 1 2 3 4 5 6 4 8 9]
            [0 1 2 3 7 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 4 9]
            [0 1 2 3 8 5 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 4]
            [0 1 2 3 9 5 6 7 8 9]
            [0 1 2 3 4 5 5 7 8 9]
            [0 1 2 3 4 6 6 7 8 9]
            [0 1 2 3 4 5 6 5 8 9]
            [0 1 2 3 4 7 6 7 8 9]
            [0 1 2 3 4 5 6 7 5 9]
            [0 1 2 3 4 8 6 7 8 9]
            [0 1 2 3 4 5 6 7 8 5]
            [0 1 2 3 4 9 6 7 8 9]
            [0 1 2 3 4 5 6 6 8 9]
            [0 1 2 3 4 5 7 7 8 9]
            [0 1 2 3 4 5 6 7 6 9]
            [0 1 2 3 4 5 8 7 8 9]
            [0 1 2 3 4 5 6 7 8 6]
            [0 1 2 3 4 5 9 7 8 9]
            [0 1 2 3 4 5 6 7 7 9]
            [0 1 2 3 4 5 6 8 8 9]
            [0 1 2 3 4 5 6 7 8 7]
            [0 1 2 3 4 5 6 9 8 9]
            [0 1 2 3 4 5 6 7 8 8]
            [0 1 2 3 4 5 6 7 9 9]
            [0 1 2 3 4 5 6 7 8 9 10]
            [0 0 0 0 0 0 0 0 0 0 0]
            [10 9 8 7 6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6 7 8 9 10]
            [1 1 2 3 4 5 6 7 8 9 10]
            [0 1 0 3 4 5 6 7 8 9 10]
            [2 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 0 4 5 6 7 8 9 10]
            [3 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 0 5 6 7 8 9 10]
            [4 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 0 6 7 8 9 10]
            [5 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 0 7 8 9 10]
            [6 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 0 8 9 10]
            [7 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 0 9 10]
            [8 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 0 10]
            [9 1 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 0]
            [10 1 2 3 4 5 6 7 8 9 10]
            [0 1 1 3 4 5 6 7 8 9 10]
            [0 2 2 3 4 5 6 7 8 9 10]
            [0 1 2 1 4 5 6 7 8 9 10]
            [0 3 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 1 5 6 7 8 9 10]
            [0 4 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 1 6 7 8 9 10]
            [0 5 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 1 7 8 9 10]
            [0 6 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 1 8 9 10]
            [0 7 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 1 9 10]
            [0 8 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 1 10]
            [0 9 2 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 1]
            [0 10 2 3 4 5 6 7 8 9 10]
            [0 1 2 2 4 5 6 7 8 9 10]
            [0 1 3 3 4 5 6 7 8 9 10]
            [0 1 2 3 2 5 6 7 8 9 10]
            [0 1 4 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 2 6 7 8 9 10]
            [0 1 5 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 2 7 8 9 10]
            [0 1 6 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 2 8 9 10]
            [0 1 7 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 2 9 10]
            [0 1 8 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 2 10]
            [0 1 9 3 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 2]
            [0 1 10 3 4 5 6 7 8 9 10]
            [0 1 2 3 3 5 6 7 8 9 10]
            [0 1 2 4 4 5 6 7 8 9 10]
            [0 1 2 3 4 3 6 7 8 9 10]
            [0 1 2 5 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 3 7 8 9 10]
            [0 1 2 6 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 3 8 9 10]
            [0 1 2 7 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 3 9 10]
            [0 1 2 8 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 3 10]
            [0 1 2 9 4 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 3]
            [0 1 2 10 4 5 6 7 8 9 10]
            [0 1 2 3 4 4 6 7 8 9 10]
            [0 1 2 3 5 5 6 7 8 9 10]
            [0 1 2 3 4 5 4 7 8 9 10]
            [0 1 2 3 6 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 4 8 9 10]
            [0 1 2 3 7 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 4 9 10]
            [0 1 2 3 8 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 4 10]
            [0 1 2 3 9 5 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 4]
            [0 1 2 3 10 5 6 7 8 9 10]
            [0 1 2 3 4 5 5 7 8 9 10]
            [0 1 2 3 4 6 6 7 8 9 10]
            [0 1 2 3 4 5 6 5 8 9 10]
            [0 1 2 3 4 7 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 5 9 10]
            [0 1 2 3 4 8 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 5 10]
            [0 1 2 3 4 9 6 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 5]
            [0 1 2 3 4 10 6 7 8 9 10]
            [0 1 2 3 4 5 6 6 8 9 10]
            [0 1 2 3 4 5 7 7 8 9 10]
            [0 1 2 3 4 5 6 7 6 9 10]
            [0 1 2 3 4 5 8 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 6 10]
            [0 1 2 3 4 5 9 7 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 6]
            [0 1 2 3 4 5 10 7 8 9 10]
            [0 1 2 3 4 5 6 7 7 9 10]
            [0 1 2 3 4 5 6 8 8 9 10]
            [0 1 2 3 4 5 6 7 8 7 10]
            [0 1 2 3 4 5 6 9 8 9 10]
            [0 1 2 3 4 5 6 7 8 9 7]
            [0 1 2 3 4 5 6 10 8 9 10]
            [0 1 2 3 4 5 6 7 8 8 10]
            [0 1 2 3 4 5 6 7 9 9 10]
            [0 1 2 3 4 5 6 7 8 9 8]
            [0 1 2 3 4 5 6 7 10 9 10]
            [0 1 2 3 4 5 6 7 8 9 9]
            [0 1 2 3 4 5 6 7 8 10 10]
            [0 1 2 3 4 5 6 7 8 9 10 11]
            [0 0 0 0 0 0 0 0 0 0 0 0]
            [11 10 9 8 7 6 5 4 3 2 1 0]
            [0 0 2 3 4 5 6 7 8 9 10 11]
            [1 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 0 3 4 5 6 7 8 9 10 11]
            [2 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 0 4 5 6 7 8 9 10 11]
            [3 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 0 5 6 7 8 9 10 11]
            [4 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 0 6 7 8 9 10 11]
            [5 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 0 7 8 9 10 11]
            [6 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 0 8 9 10 11]
            [7 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 0 9 10 11]
            [8 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 0 10 11]
            [9 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 0 11]
            [10 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 0]
            [11 1 2 3 4 5 6 7 8 9 10 11]
            [0 1 1 3 4 5 6 7 8 9 10 11]
            [0 2 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 1 4 5 6 7 8 9 10 11]
            [0 3 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 1 5 6 7 8 9 10 11]
            [0 4 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 1 6 7 8 9 10 11]
            [0 5 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 1 7 8 9 10 11]
            [0 6 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 1 8 9 10 11]
            [0 7 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 1 9 10 11]
            [0 8 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 1 10 11]
            [0 9 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 1 11]
            [0 10 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 1]
            [0 11 2 3 4 5 6 7 8 9 10 11]
            [0 1 2 2 4 5 6 7 8 9 10 11]
            [0 1 3 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 2 5 6 7 8 9 10 11]
            [0 1 4 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 2 6 7 8 9 10 11]
            [0 1 5 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 2 7 8 9 10 11]
            [0 1 6 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 2 8 9 10 11]
            [0 1 7 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 2 9 10 11]
            [0 1 8 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 2 10 11]
            [0 1 9 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 2 11]
            [0 1 10 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 2]
            [0 1 11 3 4 5 6 7 8 9 10 11]
            [0 1 2 3 3 5 6 7 8 9 10 11]
            [0 1 2 4 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 3 6 7 8 9 10 11]
            [0 1 2 5 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 3 7 8 9 10 11]
            [0 1 2 6 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 3 8 9 10 11]
            [0 1 2 7 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 3 9 10 11]
            [0 1 2 8 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 3 10 11]
            [0 1 2 9 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 3 11]
            [0 1 2 10 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 3]
            [0 1 2 11 4 5 6 7 8 9 10 11]
            [0 1 2 3 4 4 6 7 8 9 10 11]
            [0 1 2 3 5 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 4 7 8 9 10 11]
            [0 1 2 3 6 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 4 8 9 10 11]
            [0 1 2 3 7 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 4 9 10 11]
            [0 1 2 3 8 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 4 10 11]
            [0 1 2 3 9 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 4 11]
            [0 1 2 3 10 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 4]
            [0 1 2 3 11 5 6 7 8 9 10 11]
            [0 1 2 3 4 5 5 7 8 9 10 11]
            [0 1 2 3 4 6 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 5 8 9 10 11]
            [0 1 2 3 4 7 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 5 9 10 11]
            [0 1 2 3 4 8 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 5 10 11]
            [0 1 2 3 4 9 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 5 11]
            [0 1 2 3 4 10 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 5]
            [0 1 2 3 4 11 6 7 8 9 10 11]
            [0 1 2 3 4 5 6 6 8 9 10 11]
            [0 1 2 3 4 5 7 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 6 9 10 11]
            [0 1 2 3 4 5 8 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 6 10 11]
            [0 1 2 3 4 5 9 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 6 11]
            [0 1 2 3 4 5 10 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 6]
            [0 1 2 3 4 5 11 7 8 9 10 11]
            [0 1 2 3 4 5 6 7 7 9 10 11]
            [0 1 2 3 4 5 6 8 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 7 10 11]
            [0 1 2 3 4 5 6 9 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 7 11]
            [0 1 2 3 4 5 6 10 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 7]
            [0 1 2 3 4 5 6 11 8 9 10 11]
            [0 1 2 3 4 5 6 7 8 8 10 11]
            [0 1 2 3 4 5 6 7 9 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 8 11]
            [0 1 2 3 4 5 6 7 10 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 8]
            [0 1 2 3 4 5 6 7 11 9 10 11]
            [0 1 2 3 4 5 6 7 8 9 9 11]
            [0 1 2 3 4 5 6 7 8 10 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 9]
            [0 1 2 3 4 5 6 7 8 11 10 11]
            [0 1 2 3 4 5 6 7 8 9 10 10]
            [0 1 2 3 4 5 6 7 8 9 11 11]
        }
    };
}
