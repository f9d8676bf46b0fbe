//! `core::call_manager` (1:1 and group calls) instantiated for the desktop platform.
use ringrtc::common::{CallConfig, CallId, CallMediaType, DataMode, DeviceId};
use ringrtc::core::call_manager::CallManager;
use ringrtc::core::group_call::{ClientId, GroupId, RingCancelReason, RingId, VideoRequest};
use ringrtc::core::signaling;
use ringrtc::lite::call_links::CallLinkRootKey;
use ringrtc::lite::http;
use ringrtc::lite::sfu::{DemuxId, GroupMember};
use ringrtc::native::NativePlatform;
use ringrtc::webrtc::media::{AudioTrack, VideoSink, VideoTrack};
use ringrtc::webrtc::peer_connection_factory::PeerConnectionFactory;
use ringrtc::webrtc::peer_connection_observer::NetworkRoute;
use std::time::Duration;

type Inner = CallManager<NativePlatform>;
pub struct Cm(Inner);
impl Clone for Cm {
    #[inline(never)]
    fn clone(&self) -> Cm {
        Cm(self.0.clone())
    }
}
type Ctx = ringrtc::native::NativeCallContext;
/// Whether a call was accepted; calls without a result always are.
trait Fine {
    fn fine(self) -> bool;
}
impl Fine for () {
    fn fine(self) -> bool {
        true
    }
}
impl<T, E> Fine for Result<T, E> {
    fn fine(self) -> bool {
        self.is_ok()
    }
}
macro_rules! fwd {
    ($($n:ident($($a:ident: $t:ty),*);)*) => { $(
        #[inline(never)]
        pub fn $n(&mut self, $($a: $t),*) -> bool { self.0.$n($($a),*).fine() }
    )* };
}
impl Cm {
    #[inline(never)]
    pub fn new(p: NativePlatform, h: http::DelegatingClient) -> Option<Cm> {
        Inner::new(p, h).ok().map(Cm)
    }
    fwd! {
        call(peer: String, media: CallMediaType, dev: DeviceId);
        accept_call(id: CallId);
        drop_call(id: CallId);
        message_sent(id: CallId);
        message_send_failure(id: CallId);
        hangup();
        reset();
        close();
        received_offer(peer: String, id: CallId, r: signaling::ReceivedOffer);
        received_answer(peer: String, id: CallId, r: signaling::ReceivedAnswer);
        received_ice(peer: String, id: CallId, r: signaling::ReceivedIce);
        received_hangup(peer: String, id: CallId, r: signaling::ReceivedHangup);
        received_busy(peer: String, id: CallId, r: signaling::ReceivedBusy);
        received_call_message(from: Vec<u8>, dev: DeviceId, local: DeviceId, m: Vec<u8>, age: Duration);
        received_http_response(id: u32, r: Option<http::Response>);
        set_self_uuid(u: Vec<u8>);
        cancel_group_ring(g: GroupId, r: RingId, why: Option<RingCancelReason>);
        peek_group_call(req: u32, url: String, proof: Vec<u8>, members: Vec<GroupMember>);
        delete_group_call_client(id: ClientId);
        connect(id: ClientId);
        join(id: ClientId);
        leave(id: ClientId);
        disconnect(id: ClientId);
        react(id: ClientId, v: String);
        raise_hand(id: ClientId, v: bool);
        group_ring(id: ClientId, to: Option<Vec<u8>>);
        set_outgoing_audio_muted(id: ClientId, v: bool);
        set_outgoing_audio_muted_remotely(id: ClientId, by: DemuxId);
        send_remote_mute_request(id: ClientId, to: DemuxId);
        set_outgoing_video_muted(id: ClientId, v: bool);
        set_presenting(id: ClientId, v: bool);
        set_sharing_screen(id: ClientId, v: bool);
        resend_media_keys(id: ClientId);
        set_data_mode(id: ClientId, m: DataMode);
        request_video(id: ClientId, v: Vec<VideoRequest>, h: u16);
        approve_user(id: ClientId, u: Vec<u8>);
        deny_user(id: ClientId, u: Vec<u8>);
        remove_client(id: ClientId, d: DemuxId);
        block_client(id: ClientId, d: DemuxId);
        set_group_members(id: ClientId, m: Vec<GroupMember>);
        set_membership_proof(id: ClientId, p: Vec<u8>);
        set_rtc_stats_interval(id: ClientId, d: Duration);
    }
    #[inline(never)]
    pub fn proceed(&mut self, id: CallId, ctx: Ctx, cfg: CallConfig, lv: Option<Duration>) -> bool {
        self.0.proceed(id, ctx, cfg, lv).is_ok()
    }
    /// What the desktop wrapper does: only acts when the connection belongs to the call.
    #[inline(never)]
    pub fn sender_status(&self, id: CallId, s: signaling::SenderStatus) -> bool {
        match self.0.active_connection() {
            Ok(mut c) if c.call_id() == id => c.update_sender_status(s).is_ok(),
            _ => false,
        }
    }
    #[inline(never)]
    pub fn data_mode(&self, id: CallId, m: DataMode) -> bool {
        match self.0.active_connection() {
            Ok(mut c) if c.call_id() == id => c.inject_update_data_mode(m).is_ok(),
            _ => false,
        }
    }
    #[inline(never)]
    pub fn network_route(&self, id: CallId) -> Option<NetworkRoute> {
        match self.0.active_connection() {
            Ok(c) if c.call_id() == id => c.network_route().ok(),
            _ => None,
        }
    }
    #[allow(clippy::too_many_arguments)]
    #[inline(never)]
    pub fn create_group_call_client(&mut self, g: GroupId, url: String, levels: Option<Duration>, f: Option<PeerConnectionFactory>, a: AudioTrack, v: VideoTrack, sink: Option<Box<dyn VideoSink>>, extra: Vec<u8>) -> Option<ClientId> {
        self.0.create_group_call_client(g, url, extra, levels, 0, f, a, v, sink).ok()
    }
    #[allow(clippy::too_many_arguments)]
    #[inline(never)]
    pub fn create_call_link_call_client(&mut self, url: String, epk: &[u8], auth: &[u8], root: CallLinkRootKey, admin: Option<Vec<u8>>, levels: Option<Duration>, f: Option<PeerConnectionFactory>, a: AudioTrack, v: VideoTrack, sink: Option<Box<dyn VideoSink>>, extra: Vec<u8>) -> Option<ClientId> {
        self.0.create_call_link_call_client(url, epk, auth, root, admin, extra, levels, 0, f, a, v, sink).ok()
    }
    #[inline(never)]
    pub fn drop_here(self) {
        drop(self)
    }
}
