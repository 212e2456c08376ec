/// Declares harness functions and the module's registration table.
#[macro_export]
macro_rules! harness {
	($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
		$( $(#[$m])* pub fn $name() $body )*
		pub fn register(t: &mut Vec<(&'static str, fn())>) {
			$( t.push((stringify!($name), $name as fn())); )*
		}
	};
}
