From c0f721af1d305b22facd8d161f6340410ccae878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 01/56] fix: iobserver destructor no longer throws when
 trailing slots are empty

---
 app/tenncor/src/graph/react/iobserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..9437b9b 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,8 +15,8 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// remove_dependency also drops trailing empty slots, so check against the current size
+	for (size_t i = 0; i < dependencies_.size(); i++)
 	{
 		remove_dependency(i);
 	}
-- 
2.43.0


From d3582c7374b0f39e0a4d9a63d7c44d300adc0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 02/56] fix: copied and moved connectors keep their depth

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..e1270f7 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -298,6 +298,7 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -308,6 +309,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
-- 
2.43.0


From f74fe485bd2eb79c02e8f9aaa904f84fa12a233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 03/56] fix: rbm assignment had its self-assignment test
 inverted, copies lost n_hidden_

---
 app/rocnnet/src/models/rbm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..e542eb6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From 163cc3fac502395464c124564c9a5816b26395e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 04/56] fix: layer assignment carries the scope

---
 app/rocnnet/src/layers/conv_layer.cpp | 2 ++
 app/rocnnet/src/layers/fc_layer.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/rocnnet/src/layers/conv_layer.cpp b/app/rocnnet/src/layers/conv_layer.cpp
index 8812110..11e81b9 100644
--- a/app/rocnnet/src/layers/conv_layer.cpp
+++ b/app/rocnnet/src/layers/conv_layer.cpp
@@ -44,6 +44,7 @@ conv_layer& conv_layer::operator = (const conv_layer& other)
 {
 	if (&other != this)
 	{
+		ilayer::operator = (other);
 		clean_up();
 		this->copy_helper(other);
 	}
@@ -54,6 +55,7 @@ conv_layer& conv_layer::operator = (conv_layer&& other)
 {
 	if (&other != this)
 	{
+		ilayer::operator = (std::move(other));
 		clean_up();
 		this->move_helper(std::move(other));
 	}
diff --git a/app/rocnnet/src/layers/fc_layer.cpp b/app/rocnnet/src/layers/fc_layer.cpp
index 44ea1f3..ee46b2c 100644
--- a/app/rocnnet/src/layers/fc_layer.cpp
+++ b/app/rocnnet/src/layers/fc_layer.cpp
@@ -48,6 +48,7 @@ fc_layer& fc_layer::operator = (const fc_layer& other)
 {
 	if (&other != this)
 	{
+		ilayer::operator = (other);
 		clean_up();
 		copy_helper(other);
 	}
@@ -58,6 +59,7 @@ fc_layer& fc_layer::operator = (fc_layer&& other)
 {
 	if (&other != this)
 	{
+		ilayer::operator = (std::move(other));
 		clean_up();
 		move_helper(std::move(other));
 	}
-- 
2.43.0


From efbfada6400963c43020aaeee8598cf87a10b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 05/56] fix: copied and moved nodes keep their metadata

---
 app/tenncor/src/graph/inode.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 78e47fb..b06f1e6 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -33,6 +33,7 @@ inode<T>& inode<T>::operator = (const inode<T>& other)
 	{
 		subject::operator = (other);
 		label_ = other.label_;
+		metadata_ = other.metadata_;
 	}
 	return *this;
 }
@@ -44,6 +45,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 	{
 		subject::operator = (other);
 		label_ = std::move(other.label_);
+		metadata_ = std::move(other.metadata_);
 	}
 	return *this;
 }
@@ -132,12 +134,14 @@ inode<T>::inode (std::string label) :
 template <typename T>
 inode<T>::inode (const inode<T>& other) :
 	subject(other),
-	label_(other.label_) {}
+	label_(other.label_),
+	metadata_(other.metadata_) {}
 
 template <typename T>
 inode<T>::inode (inode<T>&& other) :
 	subject(std::move(other)),
-	label_(std::move(other.label_)) {}
+	label_(std::move(other.label_)),
+	metadata_(std::move(other.metadata_)) {}
 
 template <typename T>
 const tensor<T>* inode<T>::take_eval (inode<T>* source) const
-- 
2.43.0


From 273ba60ee263a1c5275d153e6defcefba520463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 06/56] fix: db_net copies and moves lost the logistic layer

---
 app/rocnnet/src/models/db_net.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..4b800ae 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,10 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	if (other.log_layer_)
+	{
+		log_layer_ = other.log_layer_->clone(scope_ + ":logres");
+	}
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +188,8 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = other.log_layer_;
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From 97d3f7bb3ba66d8429afa34989b355d5b5776ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 07/56] fix: dq_net copies and moves keep the stored
 experiences

---
 app/rocnnet/src/models/dq_net.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..26e927d 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -232,6 +232,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
 	generator_ = other.generator_;
+	experiences_ = other.experiences_;
 
 	// copy over actors
 	updater_ = other.updater_->clone();
@@ -255,6 +256,7 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
 	generator_ = std::move(other.generator_);
+	experiences_ = std::move(other.experiences_);
 
 	// move over actors
 	updater_ = other.updater_->move();
-- 
2.43.0


From ba927a53322061601323603506c973d08a64db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 08/56] fix: shape_dep assignment and move leaked the shape
 extracter

---
 app/tenncor/src/graph/connector/immutable/shape_dep.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
index 88bd1e4..912a5a5 100644
--- a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
+++ b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
@@ -62,6 +62,7 @@ shape_dep<T>& shape_dep<T>::operator = (const shape_dep<T>& other)
 	{
 		base_immutable<T>::operator = (other);
 		shape_ = other.shape_;
+		delete shape_info;
 		shape_info = other.shape_info->clone();
 	}
 	return *this;
@@ -74,7 +75,8 @@ shape_dep<T>& shape_dep<T>::operator = (shape_dep<T>&& other)
 	{
 		base_immutable<T>::operator = (std::move(other));
 		shape_ = std::move(other.shape_);
-		shape_info = other.shape_info->move();
+		delete shape_info;
+		shape_info = other.shape_info;
 		other.shape_info = nullptr;
 	}
 	return *this;
@@ -105,7 +107,7 @@ shape_dep<T>::shape_dep (shape_dep<T>&& other) :
 	base_immutable<T>(std::move(other))
 {
 	shape_ = std::move(other.shape_);
-	shape_info = other.shape_info->move();
+	shape_info = other.shape_info;
 	other.shape_info = nullptr;
 }
 
-- 
2.43.0


From 4a6675fcfb038b93e7c0bec766f07fe7b817ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 09/56] fix: moving a subject no longer ends the source half
 way

---
 app/tenncor/src/graph/react/subject.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..e478d98 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -46,7 +46,9 @@ subject& subject::operator = (subject&& other)
 {
 	if (this != &other)
 	{
-		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+		// observers leaving one by one must not end other half way
+		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp;
+		temp.swap(other.audience_);
 		for (auto& audpair : temp)
 		{
 			iobserver* aud = audpair.first;
@@ -55,7 +57,6 @@ subject& subject::operator = (subject&& other)
 				aud->replace_dependency(this, idx);
 			}
 		}
-		other.audience_.clear();
 	}
 	return *this;
 }
@@ -135,7 +136,9 @@ subject::subject (const subject&) {}
 
 subject::subject (subject&& other)
 {
-	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+	// observers leaving one by one must not end other half way
+	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp;
+	temp.swap(other.audience_);
 	for (auto& audpair : temp)
 	{
 		iobserver* aud = audpair.first;
@@ -144,7 +147,6 @@ subject::subject (subject&& other)
 			aud->replace_dependency(this, idx);
 		}
 	}
-	other.audience_.clear();
 }
 
 void subject::attach (iobserver* viewer, size_t idx)
@@ -177,8 +179,7 @@ if (rocnnet_record::record_status::rec_good)
 
 #endif /* EDGE_RCD */
 
-	audience_.erase(viewer);
-	if (audience_.empty())
+	if (audience_.erase(viewer) > 0 && audience_.empty())
 	{
 		death_on_noparent();
 	}
@@ -203,12 +204,12 @@ if (rocnnet_record::record_status::rec_good)
 		if (it->second.empty())
 		{
 			audience_.erase(viewer);
+			if (audience_.empty())
+			{
+				death_on_noparent();
+			}
 		}
 	}
-	if (audience_.empty())
-	{
-		death_on_noparent();
-	}
 }
 
 }
-- 
2.43.0


From 6203612116f65cf1d00c304623c37a48de17d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 10/56] fix: a generator without its source stops after
 announcing its end

---
 app/tenncor/src/graph/connector/immutable/generator.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/src/graph/connector/immutable/generator.ipp b/app/tenncor/src/graph/connector/immutable/generator.ipp
index 6785991..f855dab 100644
--- a/app/tenncor/src/graph/connector/immutable/generator.ipp
+++ b/app/tenncor/src/graph/connector/immutable/generator.ipp
@@ -111,6 +111,7 @@ void generator<T>::update (std::unordered_set<size_t>)
 	{
 		// self destroy
 		this->notify(UNSUBSCRIBE);
+		return;
 	}
 	tensorshape depshape = dep->get_shape();
 	if (false == dep->good_status() || false == depshape.is_fully_defined())
-- 
2.43.0


From 2ff85c015fab3f786d46cfb319651b74d4af74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 11/56] fix: a destroyed operation leaves the update queue, a
 failed update does not block later ones

---
 app/tenncor/src/graph/connector/iconnector.ipp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index e1270f7..da6433f 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -382,7 +382,20 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
-		if (users_.empty()) delete this;
+		if (users_.empty())
+		{
+			delete this;
+		}
+		else if (update_map_.erase(user) > 0)
+		{
+			// the queue must not outlive user
+			std::priority_queue<iconnector<T>*,std::vector<iconnector<T>*>,small_leafset<T> > rest;
+			for (; false == updates_.empty(); updates_.pop())
+			{
+				if (user != updates_.top()) rest.push(updates_.top());
+			}
+			updates_ = std::move(rest);
+		}
 	}
 
 	void consume (graph_manager* other)
@@ -420,11 +433,12 @@ struct iconnector<T>::graph_manager
 		{
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
+			// iconn may be scheduled again even if updater throws
 			updates_.pop();
+			update_map_.erase(iconn);
 			updater();
 			iconn->notify(UPDATE);
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
-- 
2.43.0


From 7192c71b6d7be64c7c915204f4db7b4bfe0049bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 12/56] fix: a copy or move of an out-of-date operation is
 brought up to date too

---
 app/tenncor/src/graph/connector/iconnector.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index da6433f..9c30afa 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -304,6 +304,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 	// this copies other's dependencies so, this and other share a graph
 	if (g_man_) g_man_->suicide(this);
 	g_man_ = graph_manager::get(const_cast<iconnector<T>*>(&other), this);
+	g_man_->share_update(&other, this);
 }
 
 template <typename T>
@@ -318,6 +319,7 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 		g_man_->suicide(this);
 	}
 	g_man_ = graph_manager::get(&other, this);
+	g_man_->share_update(&other, this);
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -426,6 +428,19 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
+	// schedule user (a copy of source) if source is still out of date
+	void share_update (const iconnector<T>* source, iconnector<T>* user)
+	{
+		if (update_map_.end() != update_map_.find(const_cast<iconnector<T>*>(source)))
+		{
+			add_update(user,
+			[user]
+			{
+				user->update(std::unordered_set<size_t>{});
+			});
+		}
+	}
+
 	void update (void)
 	{
 		// todo: add multithreading
-- 
2.43.0


From 76df0c7d3f24f24450cb08e1a14447f854b195ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 13/56] fix: asking a frozen operation for its shape no longer
 updates its graph

---
 app/tenncor/src/graph/connector/immutable/base_immutable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..973a494 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,7 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape();
-- 
2.43.0


From b71605bb06287b7c495cfdbdb6789ba2ce4c0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 14/56] fix: copying an operation whose jacobian list was cut
 off reads no missing entry

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 9c30afa..278548f 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -338,7 +338,7 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	for (auto& jpair : jacobians_)
 	{
 		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		if (false == js.empty() && js.back().second == other)
 		{
 			js.back().second = this;
 		}
-- 
2.43.0


From 83a8e63265a4dc59d2220876bce0b47dd7d6aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 15/56] fix: random initialisers advance the shared generator
 instead of a copy of it

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..f9a6dbc 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -268,7 +268,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -304,7 +304,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From df14680d4257124e2aaf888e526a95058e678c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 16/56] fix: replay sampling draws from the shared, seedable
 generator

---
 app/rocnnet/src/models/dq_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 26e927d..f181ffa 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -343,7 +343,7 @@ std::vector<dq_net::exp_batch> dq_net::random_sample (void)
 {
 	std::vector<size_t> indices(experiences_.size());
 	std::iota(indices.begin(), indices.end(), 0);
-	std::random_shuffle(indices.begin(), indices.end());
+	std::shuffle(indices.begin(), indices.end(), nnutils::get_generator());
 	std::vector<dq_net::exp_batch> res;
 	for (size_t i = 0; i < params_.mini_batch_size_; i++)
 	{
-- 
2.43.0


From 42e20af2bf12360bf2f288af888ca802c5df242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 17/56] fix: reading a tensor whose data does not fit its shape
 leaves the tensor alone

---
 app/tenncor/src/tensor/tensor.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..3e80a81 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -516,15 +516,17 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 	assert(other.alloc_shape_size() == other.allow_shape_size());
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allow_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
 	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	// (nothing of this tensor is changed unless the data fits)
+	if (false == temp_alloc_shape.is_compatible_with(temp_allow_shape) ||
+		false == temp_alloc_shape.is_fully_defined() ||
+		protostr.size() != temp_alloc_shape.n_elems() * sizeof(T)) return false;
 
 	deallocate();
-	alloc_shape_ = temp_alloc_shape;
-	assert(allocate());
+	allowed_shape_ = temp_allow_shape;
+	if (false == allocate(temp_alloc_shape)) return false;
 
 	// copy data over from protoraw
 	std::memcpy(raw_data_, protoraw, protostr.size());
-- 
2.43.0


From ffb27a1a0acef488c9844d61b4f2f445825a89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 18/56] fix: an allocated tensor that changes allocator takes
 its data along

---
 app/tenncor/src/tensor/tensor.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 3e80a81..67bb3cc 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -380,6 +380,15 @@ void tensor<T>::set_allocator (size_t alloc_id)
 	if (iallocator* alloc =
 		alloc_builder::get_instance().get(alloc_id))
 	{
+		// data moves along, since an allocator can only free what it allocated
+		if (nullptr != raw_data_ && alloc != alloc_)
+		{
+			size_t ns = alloc_shape_.n_elems();
+			T* temp = alloc->template allocate<T>(ns);
+			std::memcpy(temp, raw_data_, sizeof(T) * ns);
+			alloc_->dealloc(raw_data_, ns);
+			raw_data_ = temp;
+		}
 		alloc_ = alloc;
 	}
 	else
-- 
2.43.0


From 1d22daf01d44b7201a4c1a36c44e7b3b92a45720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 19/56] fix: guessing the shape of data for a tensor of
 undefined rank reads no missing dimension

---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 67bb3cc..34af545 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -294,6 +294,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		}
 		return bestshape;
 	}
+	// if allowed is undefined
+	if (false == allowed_shape_.is_part_defined())
+	{
+		return tensorshape({ndata});
+	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
-- 
2.43.0


From 4a4be7b0e323653f1ed444b3ec5e08e56c8d43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 20/56] fix: reading back a tensor whose allowed shape has
 another rank than its data no longer aborts

---
 app/tenncor/src/tensor/tensor.ipp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 34af545..8fccd0f 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -526,8 +526,6 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
 	std::string protostr = other.data();
 	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
 	tensorshape temp_allow_shape(allow);
-- 
2.43.0


From 2bc597c0b04bcfc9084de90e83886e4b57c0f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 21/56] fix: saving reports failure when the file could not be
 written completely

---
 app/tenncor/src/memory/tensor_io.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/memory/tensor_io.ipp b/app/tenncor/src/memory/tensor_io.ipp
index b144dc3..80d8b9a 100644
--- a/app/tenncor/src/memory/tensor_io.ipp
+++ b/app/tenncor/src/memory/tensor_io.ipp
@@ -45,7 +45,7 @@ bool write_inorder (std::vector<inode<T>*>& serialvec, std::string label, std::s
 	{
 		// Write the new address book back to disk.
 		std::fstream output(fname, std::ios::out | std::ios::trunc | std::ios::binary);
-		if (!repo.SerializeToOstream(&output)) {
+		if (!repo.SerializeToOstream(&output) || !output.flush()) {
 			std::cerr << "Failed to write address book." << std::endl;
 			return false;
 		}
-- 
2.43.0


From 3c4f848ac012b5f51a71614dbbdd46da5170d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 22/56] fix: a full replay memory forgets its oldest
 experience, not the second newest

---
 app/rocnnet/src/models/dq_net.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index f181ffa..c3c7825 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -92,8 +92,8 @@ void dq_net::store (std::vector<double> observation, size_t action_idx,
 		experiences_.push_back(exp_batch{observation, action_idx, reward, new_obs});
 		if (experiences_.size() > params_.max_exp_)
 		{
-			experiences_.front() = std::move(experiences_.back());
-			experiences_.pop_back();
+			// forget the oldest experience
+			experiences_.erase(experiences_.begin());
 		}
 	}
 	n_store_called_++;
-- 
2.43.0


From 7f2b40d26388ddff96bfde58d9e66806b4d32dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 23/56] fix: format floating point values so that distinct node
 parameters get distinct labels

---
 app/tenncor/include/utils/utils.hpp | 14 ++++++++++++--
 app/tenncor/src/utils/utils.cpp     | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 3d84dcd..837b3da 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -60,17 +60,27 @@ public:
 		return *this;
 	}
 
+	//! overload << operator for floating point values,
+	//! distinct values always format to distinct strings
+	formatter& operator << (const float& value);
+
+	formatter& operator << (const double& value);
+
 	//! overload << operator for vectors
 	//! add values to string delimited by comma
 	template <typename T>
 	formatter& operator << (const std::vector<T>& values)
 	{
 		auto it = values.begin();
-		stream_ << *it;
+		if (it == values.end())
+		{
+			return *this;
+		}
+		*this << *it;
 		it++;
 		while (it != values.end())
 		{
-			stream_ << "," << *it;
+			*this << "," << *it;
 			it++;
 		}
 		return *this;
diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..cf0a9c1 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 
 #include "utils/utils.hpp"
 
@@ -11,6 +12,20 @@ formatter::formatter (void) {}
 
 formatter::~formatter (void) {}
 
+formatter& formatter::operator << (const float& value)
+{
+	stream_.precision(std::numeric_limits<float>::max_digits10);
+	stream_ << value;
+	return *this;
+}
+
+formatter& formatter::operator << (const double& value)
+{
+	stream_.precision(std::numeric_limits<double>::max_digits10);
+	stream_ << value;
+	return *this;
+}
+
 std::string formatter::str (void) const
 {
 	return stream_.str();
-- 
2.43.0


From 79c1925b66bed245cefa3b69b51ed0b62b40b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 24/56] fix: unary + computes the absolute value it is labelled
 as, with its gradient

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..3b57655 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -461,12 +461,16 @@ varptr<T> operator + (const varptr<T> a)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		std::transform(src[0], src[0] + n_elems, dest,
-		[](const T data) { return +data; });
+		[](const T data) { return std::abs(data); });
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// abs'(f(x)) = f'(x)*sign(f(x))
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return +grad;
+		varptr<T> positive = conditional<T>(a, 0, [](T left, T right) { return left > right; }, "gt");
+		varptr<T> negative = conditional<T>(a, 0, [](T left, T right) { return left < right; }, "lt");
+		return grad * (positive - negative);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From a629ddc22655ffeb3e82f9c7541d17a5c4b3a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 25/56] fix: l2norm sums its whole operand and takes the root
 for constants too

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 3b57655..5ca7b37 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1010,7 +1010,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
-		return constant<T>::get(l2norm);
+		return constant<T>::get(std::sqrt(l2norm));
 	}
 	std::string opname = "l2norm";
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
@@ -1023,7 +1023,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
-- 
2.43.0


From 76096b0624dc9b7dd779b89728068264af5be0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 26/56] fix: clip_norm leaves tensors within the cap alone and
 uses the norm for constants

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 5ca7b37..86c8f3b 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1053,6 +1053,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1079,7 +1080,12 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			if (l2norm > cap)
+			{
+				// normalize
+				return data * cap / l2norm;
+			}
+			return data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 2e1b5cfbe033b214776384a5d5c93c24b746304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 27/56] fix: conditional(a, b) does not share nodes with
 conditional(b, a)

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 86c8f3b..770df4f 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1111,7 +1111,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << a << "_conditional_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From 4d4f7b22f5513de8d5789ede6d60ec65ec1f9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 28/56] fix: binomial_sample of constants fills vectors of the
 right size

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 770df4f..1a4fcf3 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1235,7 +1235,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size(), (T) 0);
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1273,7 +1273,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size(), (T) 0);
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
-- 
2.43.0


From 2968c3fcf6c2bdf5a514f3eb9d8ee5fdab3cbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 29/56] fix: binomial_sample builds its node over all of its
 operands

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 1a4fcf3..d8660b1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1287,7 +1287,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1322,7 +1322,7 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
-- 
2.43.0


From 6eeee7f29613e3906cd6e0f4d529915b012ca5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 30/56] fix: matmul rejects operands of different size beyond
 two dimensions

---
 app/tenncor/src/graph/operations/matmul.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..d2dff13 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,11 +205,13 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
-		auto it = rank1 > rank2 ? al.begin() : bl.begin();
-		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	std::vector<size_t>& longer = rank1 > rank2 ? al : bl;
+	for (size_t i = std::max(minend, (size_t) 2); i < longer.size(); i++)
+	{
+		if (longer[i] != 1)
 		{
 			std::stringstream ss;
 			ss << "attempting to matrix multiple different sized shapes ";
-- 
2.43.0


From 7414a2f50bfe9880679b827d0358d7f63b799ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 31/56] fix: matmul with transposed operands keeps its own
 gradients

---
 app/tenncor/src/graph/operations/matmul.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index d2dff13..ba65ef8 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -272,7 +272,10 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		}
 	}
 
+	// gradients depend on which operands were transposed here
 	std::string opname = "matmul";
+	if (transposeA) opname += "_ta";
+	if (transposeB) opname += "_tb";
 	if (inode<T>* parent = ordered_binary_parent_search(adata, bdata, opname))
 	{
 		return parent;
-- 
2.43.0


From cd4e0a2b17bda6be6fa896711c7b9b1aa929ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 32/56] fix: transpose with a previously non-existent dimension
 moves elements

---
 .../src/graph/operations/transform.ipp        | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..a1c7c90 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,13 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			// coordinates along previously non-existent dimensions are 0
+			coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From d36e0f7399b57af378d833ac2ea68ced176dd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 33/56] fix: extend along a new dimension reads no dimension of
 the input

---
 app/tenncor/src/graph/operations/transform.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index a1c7c90..23eb9de 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -159,7 +159,7 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
+		size_t dim = index < shape.ins_[0].rank() ? shape.ins_[0].as_list()[index] : 1;
 		std::vector<size_t> coords;
 		for (size_t i = 0; i < n_elems; i++)
 		{
-- 
2.43.0


From 05513671327c05b1b8940d05e43d1263ff33735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 34/56] fix: reduce_mean of null is null, and of a new
 dimension divides by one

---
 app/tenncor/src/graph/operations/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 23eb9de..846b173 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -317,13 +317,14 @@ varptr<T> reduce_sum (const varptr<T> a, optional<size_t> dimension)
 template <typename T>
 varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 {
+	if (nullptr == a.get()) return nullptr;
 	varptr<T> denom;
 	if (dimension)
 	{
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From c215395ecd67fa28956b8f46a1be4b524abecf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 35/56] fix: arg_compress without dimension has scalar shape

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 846b173..c9636a3 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -411,10 +411,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From 56241a81ae45c2c5443fa9f312278bba7ebcbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 36/56] fix: flip ignores dimensions beyond the rank of its
 operand

---
 app/tenncor/src/graph/operations/transform.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index c9636a3..297304c 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -475,7 +475,10 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
-				coord[d] = outlist[d] - coord[d] - 1;
+				if (d < coord.size())
+				{
+					coord[d] = outlist[d] - coord[d] - 1;
+				}
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
 		}
-- 
2.43.0


From e376045c818e4b57d6d3e02ee851d792bee2c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 37/56] fix: cross_corr2d correlates its operand with its
 filter

---
 .../src/graph/operations/transform.ipp        | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 297304c..f313f01 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -507,8 +507,15 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		std::vector<size_t> outshape = shapes[0].as_list();
 		std::vector<size_t> filtshape = shapes[1].as_list();
-		outshape[dims.first] -= filtshape[dims.first] + 1;
-		outshape[dims.second] -= filtshape[dims.second] + 1;
+		size_t filtfirst = dims.first < filtshape.size() ? filtshape[dims.first] : 1;
+		size_t filtsecond = dims.second < filtshape.size() ? filtshape[dims.second] : 1;
+		if (dims.first >= outshape.size() || dims.second >= outshape.size() ||
+			filtfirst > outshape[dims.first] || filtsecond > outshape[dims.second])
+		{
+			throw std::logic_error("filter does not fit in convolved tensor");
+		}
+		outshape[dims.first] -= filtfirst - 1;
+		outshape[dims.second] -= filtsecond - 1;
 		return outshape;
 	},
 	new transfer_func<T>(
@@ -518,22 +525,25 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 		size_t n_elems = shape.outs_.n_elems();
 		std::vector<size_t> outlist = shape.outs_.as_list();
 		std::vector<size_t> inlist = shape.ins_[0].as_list();
-		size_t firstn = inlist[dims.first] - outlist[dims.first];
-		size_t secondn = inlist[dims.second] - outlist[dims.second];
+		size_t firstn = inlist[dims.first] - outlist[dims.first] + 1;
+		size_t secondn = inlist[dims.second] - outlist[dims.second] + 1;
+		std::vector<size_t> filtcoord(std::max(dims.first, dims.second) + 1, 0);
 		std::vector<size_t> coord;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			dest[i] = 0;
-			coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t j = 0; j < firstn; j++)
 			{
 				for (size_t k = 0; k < secondn; k++)
 				{
-					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[0][k * firstn + j];
-
-					coord[dims.second]++;
+					coord = shape.outs_.coordinate_from_idx(i);
+					coord[dims.first] += j;
+					coord[dims.second] += k;
+					filtcoord[dims.first] = j;
+					filtcoord[dims.second] = k;
+					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] *
+						src[1][shape.ins_[1].flat_idx(filtcoord)];
 				}
-				coord[dims.first]++;
 			}
 		}
 	}),
-- 
2.43.0


From 3165eafa206d387571c79a15631b3e3aa6c0ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 38/56] fix: operands grouped along the same axis are combined
 by element

---
 app/tenncor/src/graph/operations/elementary.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index d8660b1..79ffde1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1438,7 +1438,8 @@ varptr<T> operator + (const varptr<T> a, const varptr<T> b)
 	optional<size_t> baxis = b->get_metadata("grouping");
 	if (aaxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
+		// tensors grouped along the same axis have matching elements
+		if (false == (bool)baxis)
 		{
 			return add_axial_b(a, b, *aaxis);
 		}
@@ -1562,7 +1563,8 @@ varptr<T> operator - (const varptr<T> a, const varptr<T> b)
 	optional<size_t> baxis = b->get_metadata("grouping");
 	if (aaxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
+		// tensors grouped along the same axis have matching elements
+		if (false == (bool)baxis)
 		{
 			return sub_axial_b(a, b, *aaxis);
 		}
@@ -1702,7 +1704,8 @@ varptr<T> operator * (const varptr<T> a, const varptr<T> b)
 	optional<size_t> baxis = b->get_metadata("grouping");
 	if (aaxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
+		// tensors grouped along the same axis have matching elements
+		if (false == (bool)baxis)
 		{
 			return mul_axial_b(a, b, *aaxis);
 		}
@@ -1843,7 +1846,8 @@ varptr<T> operator / (const varptr<T> a, const varptr<T> b)
 	optional<size_t> baxis = b->get_metadata("grouping");
 	if (aaxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
+		// tensors grouped along the same axis have matching elements
+		if (false == (bool)baxis)
 		{
 			return div_axial_b(a, b, *aaxis);
 		}
-- 
2.43.0


From 2196dd887c8ad7156d003d2197bf57b7892719fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 39/56] fix: axis 0 operands of as many elements as the axis
 are read along it

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 79ffde1..874f0c9 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -137,7 +137,7 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
+				if (axis == 0 && shapes.ins_[idx].n_elems() != n_elems)
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					if (ilist[axis] != olist[axis+1])
-- 
2.43.0


From ba7fed804b633a1e5d0140be68592e33d5c80f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 40/56] fix: axial operators read scalar operands within bounds

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 874f0c9..5919e5d 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -124,12 +124,14 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 		size_t n_elems = shapes.outs_.n_elems();
 		std::vector<size_t> olist = shapes.outs_.as_list();
 		std::vector<size_t> ilist = shapes.ins_[idx].as_list();
+		// the other operand is a scalar or has the shape of the output
+		bool other_mul = shapes.ins_[(idx + 1) % 2].n_elems() > 1;
 
 		if (1 == shapes.ins_[idx].n_elems())
 		{
 			for (size_t i = 0; i < n_elems; i++)
 			{
-				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i]);
+				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i * other_mul]);
 			}
 		}
 		else
@@ -153,13 +155,13 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 					coords = std::vector<size_t>(coords.begin()+1, coords.end());
 					axis_idx = shapes.ins_[idx].flat_idx(coords);
 				}
-				else if (axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1))
+				else if (axis > 0 && shapes.ins_[idx].n_elems() != n_elems)
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					coords[axis] = 0;
 					axis_idx = shapes.ins_[idx].flat_idx(coords);
 				}
-				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i]);
+				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i * other_mul]);
 			}
 		}
 	};
-- 
2.43.0


From 4a1a964a6c61b16f606bd1d6678fe493375b95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:24 +0000
Subject: [PATCH 41/56] fix: axial operators reject operands that do not match
 beyond the axis

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 5919e5d..661c2fe 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -68,11 +68,11 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 		{
 			s2list.pop_back();
 		}
-		else
+		else if (axis < s2list.size())
 		{
 			s2list[axis] = 1;
 		}
-		if (false == shape1.is_compatible_with(tensorshape(s2list)))
+		if (s2list.empty() || false == shape1.is_compatible_with(tensorshape(s2list)))
 		{
 			std::stringstream ss;
 			ss << "shape ";
-- 
2.43.0


From edfbbb39439a293a1c7119eaf818a293cd30b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 42/56] fix: binomial_sample reads scalar operands within
 bounds

---
 app/tenncor/src/graph/operations/elementary.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 661c2fe..358c201 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1328,11 +1328,13 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
+		bool n_mul = shapes.ins_[0].n_elems() > 1;
+		bool p_mul = shapes.ins_[1].n_elems() > 1;
 		std::default_random_engine& gen = nnutils::get_generator();
 		for (size_t i = 0; i < n_out; i++)
 		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
+			size_t n = srcs[0][i * n_mul];
+			T p = srcs[1][i * p_mul];
 			assert(p >= 0 && p <= 1);
 			std::binomial_distribution<int> dist(n, p);
 			dest[i] = dist(gen);
-- 
2.43.0


From 8209ff61baedcfc95af7a4c1a13f9ae0d1e91e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 43/56] fix: gradient of an operator dividing by an axial
 operand divides along the axis

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 358c201..7544eec 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -2029,7 +2029,7 @@ varptr<T> div_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b)) / pow(b, 2);
+		return div_axial_b(mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b), pow(b, 2), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
-- 
2.43.0


From 799852e1fed91f506d47881d148c19a9792642d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 44/56] fix: gradient of matmul multiplies before transposing
 back to the operand

---
 app/tenncor/src/graph/operations/matmul.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index ba65ef8..d65318a 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -393,8 +393,9 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			return root;
 		}
-		varptr<T> mA = matmul<T>(root, argb, false, true);
-		varptr<T> mB = matmul<T>(arga, root, true);
+		// gradients of transposed operands have their shape
+		varptr<T> mA = matmul<T>(root, argb, false, true) * grada;
+		varptr<T> mB = matmul<T>(arga, root, true) * gradb;
 		if (transposeA)
 		{
 			mA = transpose<T>(mA);
@@ -403,7 +404,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			mB = transpose<T>(mB);
 		}
-		return mA * grada + mB * gradb;
+		return mA + mB;
 	}, leef);
 	return mmul;
 }
-- 
2.43.0


From 7a400157a775beb1724621415bd0fa1f0ba1bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 45/56] fix: clip_norm of a norm returned the node that clips
 what the norm is of

---
 app/tenncor/src/graph/operations/elementary.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 7544eec..a423aa7 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1067,11 +1067,13 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
 	std::string opname = nnutils::formatter() << "clip_l2norm_" << cap;
-	if (inode<T>* parent = unary_parent_search(a.get(), opname))
+	varptr<T> norm = l2norm(a);
+	// the norm is an operand too: it must not be mistaken for the clipped one
+	if (inode<T>* parent = ordered_binary_parent_search(norm.get(), a.get(), opname))
 	{
 		return parent;
 	}
-	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{l2norm(a), a},
+	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{norm, a},
 	elementary_shaper,
 	new transfer_func<T>(
 	[cap](T* dest, std::vector<const T*> srcs, shape_io shapes)
-- 
2.43.0


From ff3477336e720859a3cbfd5dde09f50b6e2ed1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:46 +0000
Subject: [PATCH 46/56] fix: axial sums and products are not shared with those
 of the operands exchanged

---
 app/tenncor/src/graph/operations/elementary.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index a423aa7..2b41d12 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -193,7 +193,10 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		return a + outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// operands of axial operators have different roles
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
@@ -293,7 +296,10 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		return a * outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// operands of axial operators have different roles
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
-- 
2.43.0


From 06f2d0786efbb53f4c6f9f7762dbbc2b72e5edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:07 +0000
Subject: [PATCH 47/56] fix: cross_corr2d refuses to convolve one dimension
 twice

---
 app/tenncor/src/graph/operations/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index f313f01..110d7cd 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -509,7 +509,8 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 		std::vector<size_t> filtshape = shapes[1].as_list();
 		size_t filtfirst = dims.first < filtshape.size() ? filtshape[dims.first] : 1;
 		size_t filtsecond = dims.second < filtshape.size() ? filtshape[dims.second] : 1;
-		if (dims.first >= outshape.size() || dims.second >= outshape.size() ||
+		if (dims.first == dims.second ||
+			dims.first >= outshape.size() || dims.second >= outshape.size() ||
 			filtfirst > outshape[dims.first] || filtsecond > outshape[dims.second])
 		{
 			throw std::logic_error("filter does not fit in convolved tensor");
-- 
2.43.0


From 2a828bb75021960563902180cae47d93d76b0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:07 +0000
Subject: [PATCH 48/56] fix: axial operands given with other leading or
 trailing ones are read at the right places

---
 .../src/graph/operations/elementary.ipp       | 27 ++++++-------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 2b41d12..8166a4f 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -123,7 +123,6 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 		assert(2 == srcs.size());
 		size_t n_elems = shapes.outs_.n_elems();
 		std::vector<size_t> olist = shapes.outs_.as_list();
-		std::vector<size_t> ilist = shapes.ins_[idx].as_list();
 		// the other operand is a scalar or has the shape of the output
 		bool other_mul = shapes.ins_[(idx + 1) % 2].n_elems() > 1;
 
@@ -136,30 +135,20 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 		}
 		else
 		{
+			// elements of the axial operand lie as in the output without its axis,
+			// even if it is given with leading or trailing ones more or less
+			bool has_axis = shapes.ins_[idx].n_elems() == n_elems;
+			std::vector<size_t> alist = olist;
+			if (false == has_axis) alist[axis] = 1;
+			tensorshape ashape(alist);
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && shapes.ins_[idx].n_elems() != n_elems)
-				{
-					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					if (ilist[axis] != olist[axis+1])
-					{
-						std::stringstream ss;
-						ss << "failed to map ";
-						print_shape(shapes.outs_, ss);
-						ss << " to ";
-						print_shape(shapes.ins_[idx], ss);
-						ss << " along axis 0";
-						throw std::logic_error(ss.str());
-					}
-					coords = std::vector<size_t>(coords.begin()+1, coords.end());
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
-				}
-				else if (axis > 0 && shapes.ins_[idx].n_elems() != n_elems)
+				if (false == has_axis)
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					coords[axis] = 0;
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
+					axis_idx = ashape.flat_idx(coords);
 				}
 				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i * other_mul]);
 			}
-- 
2.43.0


From 2b0b51330bc88b30adacc60591b2493e45c0b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 49/56] fix: RMSprop tells the users of its average once the
 step is taken

---
 app/tenncor/src/utils/gd_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..9651759 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -230,6 +230,8 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	{
 		momentum_update(false);
 		leaf_update(notify);
+		// only now that the step was taken: its square root must not see the momentum twice
+		momentum->notify(notification::UPDATE);
 	};
 }
 
-- 
2.43.0


From 035999a9b1dcba2984fb49eae0f6ff003c804a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 50/56] fix: fine-tuning a deep belief net looks at the
 expected outputs

---
 app/rocnnet/src/models/db_net.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index 4b800ae..d9ceb3b 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -101,11 +101,14 @@ update_cost_t db_net::build_finetune_functions (
 	double learning_rate)
 {
 	nnet::varptr<double> out_dist = prop_up(&train_in);
-	nnet::varptr<double> finetune_cost = - nnet::reduce_mean(nnet::log(out_dist));
+	nnet::varptr<double> expected_out(&train_out);
+	// cross entropy between what is expected and the distribution of each example
+	nnet::varptr<double> finetune_cost = - nnet::reduce_mean(
+		nnet::reduce_sum(expected_out * nnet::log(out_dist), 0));
 	finetune_cost->set_label("finetune_cost(" + finetune_cost->get_label() + ")");
 	nnet::iconnector<double>* ft_cost_icon = static_cast<nnet::iconnector<double>*>(finetune_cost.get());
 
-	nnet::varptr<double> temp_diff = out_dist - nnet::varptr<double>(&train_out);
+	nnet::varptr<double> temp_diff = out_dist - expected_out;
 	nnet::varptr<double> error = nnet::reduce_mean(nnet::pow(temp_diff, 2));
 
 	std::vector<nnet::variable<double>*> gparams = this->get_variables();
-- 
2.43.0


From 98209bc8b17e9597912b94d510642183cd1d08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 51/56] fix: the pseudo-likelihood flips one visible unit and
 leaves the others

---
 app/rocnnet/src/models/rbm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index e542eb6..fe38c59 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -251,7 +251,7 @@ nnet::varptr<double> rbm::get_pseudo_likelihood_cost (nnet::inode<double>* input
 	nnet::varptr<double> one_i = nnet::const_axis<double>(0, 0, 1, input->get_shape());
 
 	nnet::varptr<double> xi = nnet::round(nnet::varptr<double>(input)); // xi = [0|1...]
-	nnet::varptr<double> xi_flip = one_i - xi;
+	nnet::varptr<double> xi_flip = one_i + xi - 2.0 * one_i * xi; // 1 - xi at x_idx, xi elsewhere
 
 	nnet::varptr<double> fe_xi = free_energy(xi);
 	nnet::varptr<double> fe_xi_flip = free_energy(xi_flip);
-- 
2.43.0


From fc4d8eeb19902b2239fb34f338b82d453d3f105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:12 +0000
Subject: [PATCH 52/56] fix: detaching a non-observer made the edge recorder
 lose the next edge

---
 app/tenncor/src/graph/react/subject.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index e478d98..968cd29 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -171,9 +171,13 @@ void subject::detach (iobserver* viewer)
 if (rocnnet_record::record_status::rec_good)
 {
 	// record subject-object edge
-	for (size_t idx : audience_[viewer])
+	auto it = audience_.find(viewer);
+	if (audience_.end() != it)
 	{
-		rocnnet_record::record_status::rec->edge_release(viewer, this, idx);
+		for (size_t idx : it->second)
+		{
+			rocnnet_record::record_status::rec->edge_release(viewer, this, idx);
+		}
 	}
 }
 
-- 
2.43.0


From ae9712f51286bcb5399ffb47b93a73e083031fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:11 +0000
Subject: [PATCH 53/56] fix: a new cache entry and an escape wake every waiting
 consumer

---
 app/tenncor/include/thread/shareable_cache.hpp | 2 ++
 app/tenncor/src/thread/shareable_cache.ipp     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..d7fc0be 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -6,6 +6,8 @@
 //  Copyright © 2017 Mingkai Chen. All rights reserved.
 //
 
+#include <condition_variable>
+#include <functional>
 #include <mutex>
 #include <memory>
 #include <unordered_map>
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..2bcdfc4 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -138,13 +138,13 @@ void shareable_cache<K, T>::add_latest (T data)
 		content_.unlink(iter->second);
 	}
 	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From df8e13d61c43227f2ca46e5f7ccaa8af68ac7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:11 +0000
Subject: [PATCH 54/56] fix: a stop request cannot fall between the check and
 the wait

---
 app/tenncor/include/thread/stop_flag.hpp | 6 ++++++
 app/tenncor/src/thread/stop_flag.cpp     | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..95756af 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <mutex>
 
 #pragma once
 #ifndef STOP_FLAG_HPP
@@ -21,10 +22,15 @@ public:
 
 	std::condition_variable& get_condition (void) { return cond_; }
 
+	// held while the flag is set, and while it is checked before waiting
+	std::mutex& get_mutex (void) { return mutex_; }
+
 private:
 	std::atomic<bool> flag_;
 
 	std::condition_variable cond_;
+
+	std::mutex mutex_;
 };
 
 struct thread_interrupted {};
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..d75852a 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -14,6 +14,7 @@ thread_local stop_flag thread_stop_flag;
 
 void stop_flag::set (void)
 {
+	std::unique_lock<std::mutex> lk(mutex_); // the waiting thread either sees the flag or is woken
 	flag_.store(true, std::memory_order_relaxed); // no constraints
 	cond_.notify_one(); // should have only stopped once per thread
 }
@@ -33,8 +34,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
+	std::unique_lock<std::mutex> lk(thread_stop_flag.get_mutex());
 	thread_stop_flag.get_condition().wait(lk,
 	[]{ return thread_stop_flag.is_set(); });
 }
-- 
2.43.0


From fbf082752a58608ec085a5f367773b7a4e086772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:11 +0000
Subject: [PATCH 55/56] fix: stopping a thread that was never started does
 nothing

---
 app/tenncor/include/thread/stoppable_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..c34601b 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -59,7 +59,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	stop_flag* flag_ = nullptr;
 };
 
 }
-- 
2.43.0


From 3c6e5a3faec092bbf457697343acc6a5b0b850b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:11 +0000
Subject: [PATCH 56/56] fix: the subscriptions of the visualiser are changed
 under a lock

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        |  7 +++++
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 28 ++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 6f27490..1085205 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -53,6 +53,10 @@ public:
 	void clear_subscriptions (void);
 
 private:
+	void subscribe (std::string client);
+
+	bool is_subscribed (std::string client);
+
 	// shared with graph_vis_record
 	nodecache_t* node_src_;
 
@@ -60,6 +64,9 @@ private:
 
 	// own
 	std::unordered_set<std::string> subscriptions_;
+
+	// calls are served by several threads
+	std::mutex mutex_;
 };
 
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src);
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 85c5068..fc39079 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,11 +20,10 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (is_subscribed(cli_id))
 	{
 		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
 		{
@@ -39,11 +38,10 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (is_subscribed(cli_id))
 	{
 		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
 		{
@@ -56,6 +54,7 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
+	std::unique_lock<std::mutex> locker(mutex_);
 	subscriptions_.erase(client->id());
 	return grpc::Status::OK;
 }
@@ -70,11 +69,26 @@ grpc::Status gui_notifier::GetNodeData (grpc::ServerContext* context,
 
 void gui_notifier::clear_subscriptions (void)
 {
-	subscriptions_.clear();
+	{
+		std::unique_lock<std::mutex> locker(mutex_);
+		subscriptions_.clear();
+	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
 }
 
+void gui_notifier::subscribe (std::string client)
+{
+	std::unique_lock<std::mutex> locker(mutex_);
+	subscriptions_.emplace(client);
+}
+
+bool gui_notifier::is_subscribed (std::string client)
+{
+	std::unique_lock<std::mutex> locker(mutex_);
+	return subscriptions_.end() != subscriptions_.find(client);
+}
+
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src)
 {
 	gui_notifier service(node_src, edge_src);
-- 
2.43.0

