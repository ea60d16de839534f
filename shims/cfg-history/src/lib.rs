//! Stand-in for `cfg-history` (the `cfg` repository is not available offline).
pub mod earley {
    use cfg_symbol::Symbol;

    macro_rules! data {
        ($($item:item)*) => { $(
            #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
            #[derive(miniserde::Serialize, miniserde::Deserialize, Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            $item
        )* };
    }

    data! {
        pub struct ExternalOrigin {
            pub id: u32,
        }
        pub struct EventId {
            pub id: u32,
        }
        pub struct MinimalDistance {
            pub distance: u32,
        }
        pub struct ExternalDottedRule {
            pub id: u32,
            pub pos: u32,
        }
    }

    pub type EventAndDistance = (EventId, MinimalDistance);
    pub type NullingEliminated = Option<(Symbol, bool)>;

    pub const NULL_ID: u32 = !0;

    impl ExternalOrigin {
        pub fn null() -> Self {
            ExternalOrigin { id: NULL_ID }
        }
        pub fn is_null(self) -> bool {
            self.id == NULL_ID
        }
    }
    impl EventId {
        pub fn null() -> Self {
            EventId { id: NULL_ID }
        }
        pub fn is_null(self) -> bool {
            self.id == NULL_ID
        }
    }
    impl MinimalDistance {
        pub fn null() -> Self {
            MinimalDistance { distance: NULL_ID }
        }
        pub fn is_null(self) -> bool {
            self.distance == NULL_ID
        }
    }
    impl ExternalDottedRule {
        pub fn null() -> Self {
            ExternalDottedRule {
                id: NULL_ID,
                pos: NULL_ID,
            }
        }
        pub fn is_null(self) -> bool {
            self.id == NULL_ID
        }
    }

    /// What is known about one dot position of a rule.
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct RuleDot {
        pub event: EventId,
        pub distance: MinimalDistance,
        pub trace: ExternalDottedRule,
    }

    impl RuleDot {
        pub fn null() -> Self {
            RuleDot {
                event: EventId::null(),
                distance: MinimalDistance::null(),
                trace: ExternalDottedRule::null(),
            }
        }
        pub fn event_and_distance(self) -> EventAndDistance {
            (self.event, self.distance)
        }
        pub fn trace(self) -> ExternalDottedRule {
            self.trace
        }
    }
}
