verus! {

// ---- std: functions that vstd has no contract for ------------------------------------------------------------------

pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });

pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });

pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None::<U> });

pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None::<T> });

pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(b);

pub assume_specification<T> [Option::<Option<T>>::flatten] (a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => x, None => None::<T> });

pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(T, U)> });

pub assume_specification<T, E, F> [Result::<T, E>::or] (a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures r == (match a { Ok(x) => Ok::<T, F>(x), Err(_) => b });

pub assume_specification<T, E, U> [Result::<T, E>::and] (a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });

pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => b });

pub assume_specification<T> [bool::then_some] (a: bool, b: T) -> (r: Option<T>)
    ensures r == (if a { Some(b) } else { None::<T> });

pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);

pub assume_specification<T> [std::mem::drop] (x: T);

} // verus!
