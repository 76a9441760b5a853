"""Planted bugs that the checks missed at first, and what was done."""
FIRST = {
 "builder-partial": "no: appended texts were at most one byte long; contents of two bytes since",
 "tags-push-sorted": "no: needs four operations in one edit session; `h_tags_session` and deeper `h_tags_model` since",
 "tags-unstable-sort": "no: needs more than 20 tags; `h_tags_many` since",
 "adjuster-shortcut": "no: adjusters kept no state; they record what they are given since",
 "cap-combine-nick": "no: both replies had the same nickname; two nicknames since",
 "labels-wrap": "no: 300 labels; 66000 since",
 "str-eq-unchecked": "no: comparisons with text were not a property; P45 since",
 "escape-grows": "no: the secret had nothing to escape; it has since",
 "move-write-limit": "no: no check moved a client between connections with a limit still unset; `h_client_move` since",
 "yield-hangup": "no: the channels of `h_yield` stayed open; `h_yield_all` since",
}
